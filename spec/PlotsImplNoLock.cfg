SPECIFICATION Spec
CONSTANTS N = 2 Win = 3 MaxFed = 5 MaxWork = 3 Locked = FALSE TryLock = TRUE MaxFrames = 3
INVARIANTS Aligned Window
PROPERTIES Forward Newest NoBlock
CHECK_DEADLOCK FALSE

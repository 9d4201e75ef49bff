SPECIFICATION Spec
CONSTANTS
 Lives = 3
 Frames = 2
 Variant = "leak"
INVARIANTS Accepts Returned
CHECK_DEADLOCK FALSE

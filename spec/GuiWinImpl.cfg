SPECIFICATION Spec
CONSTANTS
 Lives = 3
 Frames = 2
 Variant = "none"
INVARIANTS Accepts Returned
CHECK_DEADLOCK FALSE

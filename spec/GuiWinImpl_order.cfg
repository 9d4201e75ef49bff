SPECIFICATION Spec
CONSTANTS
 Lives = 3
 Frames = 2
 Variant = "order"
INVARIANTS Accepts Returned
CHECK_DEADLOCK FALSE

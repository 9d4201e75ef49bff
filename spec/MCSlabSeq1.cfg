SPECIFICATION Spec
CONSTANTS Cap = 1
 Max = 6
INVARIANT Bound
CHECK_DEADLOCK FALSE

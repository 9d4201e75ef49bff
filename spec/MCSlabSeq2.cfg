SPECIFICATION Spec
CONSTANTS Cap = 2
 Max = 6
INVARIANT Bound
CHECK_DEADLOCK FALSE

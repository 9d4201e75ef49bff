SPECIFICATION Spec
CONSTANTS Cap = 3
 Max = 6
INVARIANT Bound
CHECK_DEADLOCK FALSE

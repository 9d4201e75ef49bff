SPECIFICATION Spec
CONSTANTS N = 6
 P = 3
 Q = 1
 CI = 3
 CO = 2
 Mode = "exact"
INVARIANTS Exact Fits
PROPERTY Completes
CHECK_DEADLOCK FALSE

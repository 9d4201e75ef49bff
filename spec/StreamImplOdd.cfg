SPECIFICATION Spec
CONSTANTS N = 7
 P = 3
 Q = 2
 CI = 3
 CO = 3
 Mode = "pend"
INVARIANTS Exact Fits
PROPERTY Completes
CHECK_DEADLOCK FALSE

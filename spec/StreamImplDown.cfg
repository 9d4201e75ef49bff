SPECIFICATION Spec
CONSTANTS N = 9
 P = 2
 Q = 5
 CI = 4
 CO = 2
 Mode = "pend"
INVARIANTS Exact Fits
PROPERTY Completes
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Lines = 5
 Max0 = 2
 Bk = 2
 Lock = TRUE
 Down = FALSE
INVARIANTS Enough
CHECK_DEADLOCK FALSE

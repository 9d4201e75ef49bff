SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Lines = 3
 Max0 = 2
 Bk = 2
 Lock = FALSE
 Down = TRUE
INVARIANTS Enough
CHECK_DEADLOCK FALSE

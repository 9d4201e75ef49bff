SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Lines = 3
 Max0 = 2
 Bk = 2
 Lock = TRUE
 Down = TRUE
INVARIANTS Suffix Enough Sizes
CHECK_DEADLOCK FALSE

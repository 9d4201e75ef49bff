SPECIFICATION Spec
CONSTANTS N = 5
 Flush = TRUE
 Sticky = TRUE
INVARIANTS InOrder Lossless Exact
CHECK_DEADLOCK FALSE

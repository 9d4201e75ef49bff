SPECIFICATION Spec
CONSTANTS N = 5
 Flush = TRUE
 Sticky = FALSE
INVARIANTS InOrder Lossless Exact
CHECK_DEADLOCK FALSE

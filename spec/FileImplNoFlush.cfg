SPECIFICATION Spec
CONSTANTS N = 5
 Flush = FALSE
 Sticky = TRUE
INVARIANTS InOrder Lossless Exact
CHECK_DEADLOCK FALSE

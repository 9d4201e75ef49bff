SPECIFICATION Spec
CONSTANTS ByValue = FALSE
 JoinThread = FALSE
 Kill = TRUE
INVARIANTS Safe Once Joined
PROPERTY Returns
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS ByValue = FALSE
 JoinThread = TRUE
 Kill = FALSE
INVARIANTS Safe Once Joined
PROPERTY Returns
CHECK_DEADLOCK FALSE

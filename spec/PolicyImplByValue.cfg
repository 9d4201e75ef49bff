SPECIFICATION Spec
CONSTANTS ByValue = TRUE
 JoinThread = FALSE
 Kill = TRUE
INVARIANTS Safe Once Joined
CHECK_DEADLOCK FALSE

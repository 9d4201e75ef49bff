SPECIFICATION Spec
CONSTANTS ByValue = FALSE
 JoinThread = FALSE
 Kill = FALSE
INVARIANTS Safe Once Joined
CHECK_DEADLOCK FALSE

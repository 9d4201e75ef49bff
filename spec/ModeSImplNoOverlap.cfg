CONSTANTS Total = 15 Long = 5 Short = 3 Room = 2
 KeepOverlap = FALSE
 KeepSkip = TRUE
 LimitRoom = TRUE
SPECIFICATION Spec
INVARIANTS InOrder Prompt Real
CHECK_DEADLOCK FALSE

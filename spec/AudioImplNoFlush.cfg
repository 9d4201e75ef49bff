SPECIFICATION Spec
CONSTANTS Frames = 2 Size = 2 Hold = 1 Delay = 0 MaxRoom = 3 MaxCalls = 6 NoFlush = TRUE NoOnce = FALSE Repeat = FALSE MaxOut = 8 FailAt = 99 FailAsEnd = FALSE
INVARIANTS Allowed Whole
CHECK_DEADLOCK FALSE

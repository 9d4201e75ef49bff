SPECIFICATION Spec
CONSTANTS Frames = 2 Size = 2 Hold = 0 Delay = 1 MaxRoom = 3 MaxCalls = 8 NoFlush = FALSE NoOnce = TRUE Repeat = FALSE MaxOut = 8 FailAt = 99 FailAsEnd = FALSE
INVARIANTS Allowed Whole
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Frames = 3 Size = 2 Hold = 1 Delay = 2 MaxRoom = 3 MaxCalls = 9 NoFlush = FALSE NoOnce = FALSE Repeat = FALSE MaxOut = 8 FailAt = 99 FailAsEnd = FALSE
INVARIANTS Allowed Whole
CHECK_DEADLOCK FALSE

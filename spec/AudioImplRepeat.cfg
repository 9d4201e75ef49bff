SPECIFICATION Spec
CONSTANTS Frames = 2 Size = 3 Hold = 1 Delay = 1 MaxRoom = 3 MaxCalls = 8 NoFlush = FALSE NoOnce = FALSE Repeat = TRUE MaxOut = 8 FailAt = 99 FailAsEnd = FALSE
INVARIANTS Allowed Whole
CHECK_DEADLOCK FALSE

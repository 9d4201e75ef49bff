SPECIFICATION Spec
CONSTANTS P = 4 S = 3 MaxPay = 2 Frames = 2 Early = 2 Window = 10 ResetAll = FALSE Carry = TRUE
INVARIANTS InOrder
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS P = 4 S = 3 MaxPay = 2 Frames = 2 Early = 2 Window = 4 ResetAll = TRUE Carry = TRUE
INVARIANTS AllHeard
CHECK_DEADLOCK FALSE

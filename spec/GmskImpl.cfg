SPECIFICATION Spec
CONSTANTS P = 4 S = 3 MaxPay = 2 Frames = 3 Early = 2 Window = 10 ResetAll = TRUE Carry = TRUE
INVARIANTS Bounds InOrder AllHeard
CHECK_DEADLOCK FALSE

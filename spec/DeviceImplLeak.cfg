SPECIFICATION Spec
CONSTANTS Dir = "src" NCh = 1 MaxSamples = 2 MaxCalls = 2 Leak = TRUE Late = FALSE Chan0 = FALSE Spin = FALSE
INVARIANTS Allowed NothingHeld
CHECK_DEADLOCK FALSE

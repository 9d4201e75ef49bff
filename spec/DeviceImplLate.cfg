SPECIFICATION Spec
CONSTANTS Dir = "push" NCh = 1 MaxSamples = 2 MaxCalls = 2 Leak = FALSE Late = TRUE Chan0 = FALSE Spin = FALSE
INVARIANTS Allowed NothingHeld
CHECK_DEADLOCK FALSE

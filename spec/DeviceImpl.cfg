SPECIFICATION Spec
CONSTANTS Dir = "push" NCh = 1 MaxSamples = 5 MaxCalls = 4 Leak = FALSE Late = FALSE Chan0 = FALSE Spin = FALSE
INVARIANTS Allowed NothingHeld
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Dir = "src" NCh = 2 MaxSamples = 5 MaxCalls = 5 Leak = FALSE Late = FALSE Chan0 = FALSE Spin = FALSE
INVARIANTS Allowed NothingHeld
CHECK_DEADLOCK FALSE

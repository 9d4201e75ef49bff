SPECIFICATION Spec
CONSTANTS Dir = "snk" NCh = 2 MaxSamples = 3 MaxCalls = 4 Leak = FALSE Late = FALSE Chan0 = FALSE Spin = FALSE
INVARIANTS Allowed NothingHeld
CHECK_DEADLOCK FALSE

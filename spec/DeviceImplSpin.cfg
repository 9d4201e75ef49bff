SPECIFICATION Spec
CONSTANTS Dir = "snk" NCh = 1 MaxSamples = 2 MaxCalls = 3 Leak = FALSE Late = FALSE Chan0 = FALSE Spin = TRUE
INVARIANTS Allowed NothingHeld
CHECK_DEADLOCK FALSE

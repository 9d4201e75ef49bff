SPECIFICATION Spec
CONSTANTS Dir = "snk" NCh = 2 MaxSamples = 2 MaxCalls = 3 Leak = FALSE Late = FALSE Chan0 = TRUE Spin = FALSE
INVARIANTS Allowed NothingHeld
CHECK_DEADLOCK FALSE

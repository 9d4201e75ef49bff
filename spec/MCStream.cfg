SPECIFICATION Spec
INVARIANT Levels
CHECK_DEADLOCK FALSE

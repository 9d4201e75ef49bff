SPECIFICATION MCSpec
CONSTANT Cap = 3
VIEW View
INVARIANT FInv
CHECK_DEADLOCK FALSE

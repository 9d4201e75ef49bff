SPECIFICATION MCSpec
CONSTANT Cap = 2
VIEW View
INVARIANT FInv
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANT Cap = 4
VIEW View
INVARIANT FInv
CHECK_DEADLOCK FALSE

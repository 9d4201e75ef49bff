SPECIFICATION MCSpec
CONSTANT Cap = 1
VIEW View
INVARIANT FInv
CHECK_DEADLOCK FALSE

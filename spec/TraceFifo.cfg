SPECIFICATION TSpec
CONSTRAINT Progress
INVARIANT FInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

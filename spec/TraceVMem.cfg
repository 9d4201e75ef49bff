SPECIFICATION TSpec
CONSTRAINT Progress
INVARIANTS VInv FInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

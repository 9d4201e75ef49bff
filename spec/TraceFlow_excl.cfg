SPECIFICATION TSpec
CONSTANT Rules = {"excl"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

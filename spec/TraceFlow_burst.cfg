SPECIFICATION TSpec
CONSTANT Rules = {"burst"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT Rules = {"conf"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT Rules = {"fatal"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

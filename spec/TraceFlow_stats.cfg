SPECIFICATION TSpec
CONSTANT Rules = {"stats"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

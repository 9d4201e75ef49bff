SPECIFICATION TSpec
CONSTANT Rules = {"sleep"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT Rules = {"life"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

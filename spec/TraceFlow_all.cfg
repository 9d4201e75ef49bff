SPECIFICATION TSpec
CONSTANT Rules = {"excl","life","fatal","burst","sleep","stats"}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

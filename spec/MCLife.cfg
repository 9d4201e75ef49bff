SPECIFICATION LSpec
CHECK_DEADLOCK FALSE

INIT RInit
NEXT RNext
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted

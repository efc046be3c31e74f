INIT TInit
NEXT TNext
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted

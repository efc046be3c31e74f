INIT Init
NEXT IntNext
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted

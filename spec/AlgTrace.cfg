INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted

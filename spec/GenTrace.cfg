INIT GInit
NEXT GNext
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted

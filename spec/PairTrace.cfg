INIT PInit
NEXT PNext
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted

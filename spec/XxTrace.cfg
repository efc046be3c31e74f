INIT PInit
NEXT XNext
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted

INIT Init
NEXT Next
INVARIANT Agree
CHECK_DEADLOCK FALSE
CONSTANTS P = 3
 D = 5
 Emitting = FALSE

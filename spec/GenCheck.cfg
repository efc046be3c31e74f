INIT Init
NEXT Next
INVARIANTS Overrides ClassNumbers Roots
CONSTANTS MaxP = 43
 MaxD = 250
CHECK_DEADLOCK FALSE

INIT Init
NEXT GenNext
CONSTANT N = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE

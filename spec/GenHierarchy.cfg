INIT Init
NEXT Next
CONSTANTS NIds = 2
 MaxReq = 0
 MaxChain = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE

INIT GenInit
NEXT GenNext
CONSTANTS NF = 2
 NG = 2
 NE = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE

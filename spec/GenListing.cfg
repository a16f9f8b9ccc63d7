INIT Init
NEXT Stay
INVARIANTS Gen
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NIds = 2
 MaxReq = 2
 MaxChain = 2
INVARIANTS SelectionCorrect NoNewOrphans ConsistentStaysClosed Idempotent
CHECK_DEADLOCK FALSE

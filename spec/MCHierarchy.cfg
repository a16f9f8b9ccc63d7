SPECIFICATION Spec
CONSTANTS NIds = 2
 MaxReq = 2
 MaxChain = 1
INVARIANTS SelectionCorrect NoNewOrphans ConsistentStaysClosed Idempotent
CHECK_DEADLOCK FALSE

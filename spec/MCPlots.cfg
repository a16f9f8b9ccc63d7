SPECIFICATION Spec
INVARIANTS OneFrame NothingNegative
CHECK_DEADLOCK FALSE

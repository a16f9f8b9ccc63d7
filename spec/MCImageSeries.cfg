SPECIFICATION Spec
INVARIANTS OneInterval WholeCovers Abut Done Conserved
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Conserved NoMore Mutual BoxSuffices
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Whole Counted Energy
CHECK_DEADLOCK FALSE

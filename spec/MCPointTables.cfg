SPECIFICATION Spec
INVARIANTS Whole Named
CHECK_DEADLOCK FALSE

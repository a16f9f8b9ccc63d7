SPECIFICATION Spec
INVARIANTS Whole Arrives Bounded
CHECK_DEADLOCK FALSE

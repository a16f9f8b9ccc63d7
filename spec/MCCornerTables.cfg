SPECIFICATION Spec
INVARIANTS Interpolants Even Border Exclusive
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Contained Areas Together
CHECK_DEADLOCK FALSE

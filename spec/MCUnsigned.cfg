SPECIFICATION Spec
CONSTANT Bits = 8
INVARIANT Lossless
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS ReadBack Contiguous Ordered NowAgrees
CHECK_DEADLOCK FALSE

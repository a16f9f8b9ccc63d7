SPECIFICATION Spec
INVARIANTS AnyOrder Shared Apart
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Progress NothingLost
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS HoldsSeen AnyOrder Smallest
CHECK_DEADLOCK FALSE

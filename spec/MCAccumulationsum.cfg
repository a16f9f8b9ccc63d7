SPECIFICATION Spec
CONSTANT Kind = "sum"
INVARIANTS AsSent AnyOrder AnyDivision
CHECK_DEADLOCK FALSE

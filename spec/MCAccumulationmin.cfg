SPECIFICATION Spec
CONSTANT Kind = "min"
INVARIANTS AsSent AnyOrder AnyDivision
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Injective InType
CHECK_DEADLOCK FALSE

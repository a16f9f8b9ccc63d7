SPECIFICATION Spec
CONSTANT Puts <- AllPuts
CONSTANT Late <- BothLate
INVARIANTS Whole Counted Energy
CHECK_DEADLOCK FALSE

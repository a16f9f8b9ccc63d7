SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS EveryOrderGivesTheTable OneRowPerCell Conserved
CHECK_DEADLOCK FALSE

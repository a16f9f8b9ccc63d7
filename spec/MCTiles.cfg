SPECIFICATION Spec
CONSTANT N = 7
CONSTANT S = 4
INVARIANTS Once All Cut Whole
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS AsOne Inclusion
CHECK_DEADLOCK FALSE

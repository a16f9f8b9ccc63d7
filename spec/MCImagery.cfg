SPECIFICATION Spec
INVARIANTS InPlace UpsideUp Once Again
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS OnlyKnown LastKept Answers Itself
CHECK_DEADLOCK FALSE

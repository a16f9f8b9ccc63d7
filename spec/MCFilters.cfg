SPECIFICATION Spec
CONSTANT FieldOfView = 1
INVARIANTS FilterCorrect NeverLosesAPassingFlash EventCheckOnlyDrops NothingWithoutConditions
CHECK_DEADLOCK FALSE

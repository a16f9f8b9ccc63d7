SPECIFICATION TraceSpec
CONSTANT FieldOfView = 134900000
CHECK_DEADLOCK FALSE

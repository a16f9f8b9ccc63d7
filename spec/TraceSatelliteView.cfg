SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANT Tol = 80

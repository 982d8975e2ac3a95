SPECIFICATION TraceSpec
CONSTANT MaxLg = 10
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANT Reg = {0, 1, 2, 3}
INVARIANT Canonical
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

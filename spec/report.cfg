SPECIFICATION TraceSpec
INVARIANT Lawful
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

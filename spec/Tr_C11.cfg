SPECIFICATION TraceSpec
CONSTANTS
  Reg = {0, 1, 2}
  Lvl = {0, 1, 2}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

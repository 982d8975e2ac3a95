SPECIFICATION Spec
CONSTANTS
  N = 2
  LogN = 1
  PB = 5
  MaxK = 3
  Slack = 0
INVARIANTS Exact
CHECK_DEADLOCK FALSE

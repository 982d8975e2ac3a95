SPECIFICATION Spec
CONSTANTS
  Reg = {0, 1, 2, 3}
  Depth = 30
INVARIANT Canonical
CHECK_DEADLOCK FALSE

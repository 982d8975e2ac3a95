SPECIFICATION Spec
CONSTANTS
  W = 2
  K = 3
  Reg = {r1, r2}
  ReadFirst = TRUE
INVARIANT Canonical
PROPERTY Implements
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  N = 4
  R = 1
  K = 1
  P = 2
  Shared = FALSE
INVARIANTS Law RotKeeps
CHECK_DEADLOCK FALSE

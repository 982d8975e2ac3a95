SPECIFICATION Spec
CONSTANTS
  T = 2
  SharedTemp = FALSE
  ByCoef = FALSE
INVARIANTS Result
CHECK_DEADLOCK FALSE

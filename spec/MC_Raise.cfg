SPECIFICATION Spec
CONSTANTS
  N = 2
  A = 2
  B = 5
  Signed = TRUE
INVARIANTS Ok
CHECK_DEADLOCK FALSE

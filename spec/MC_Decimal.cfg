SPECIFICATION Spec
CONSTANTS
  W = 8
  K = 7
INVARIANTS ToStrOK FrStrOK
CHECK_DEADLOCK FALSE

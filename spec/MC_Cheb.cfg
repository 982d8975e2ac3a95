SPECIFICATION Spec
INVARIANTS Blocks Value Ladder
CHECK_DEADLOCK FALSE
CONSTANTS
  LgN = 2
  Coefs = {1, 2, 4}
  Points = {0, 1, 2, 3, 5}
  Mirror = "h-i"

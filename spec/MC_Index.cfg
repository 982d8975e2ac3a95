SPECIFICATION Spec
CONSTANTS
  W = 4
  Slip = 0
  MaxK = 26
  MaxG = 5
INVARIANTS InRange Complete Pairs
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  W = 2
  MaxK = 6
INVARIANTS Down Up Resz Sign Meaning
CHECK_DEADLOCK FALSE

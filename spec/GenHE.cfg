SPECIFICATION Spec
CONSTANTS
  Reg = {0, 1, 2}
  Lvl = {0, 1, 2}
  Depth = 24
CHECK_DEADLOCK FALSE

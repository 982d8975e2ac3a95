SPECIFICATION Spec
CONSTANTS
  N = 2
  K = 4
  B = 1
  NB = 1
  Masks = {1, 255}
  Comps = {0, 1, 8, 15}
  Floor = FALSE
INVARIANTS Bounded ProductIsSwitch AutoIsSwitch
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Rounds = 41
INVARIANTS Agree Long
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  N = 4
  Q = 17
  Entries = {0, 1, 2, 5, 16}
  BitRev = TRUE
INVARIANTS PointsOK Values Returns Stage
CHECK_DEADLOCK FALSE

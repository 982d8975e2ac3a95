SPECIFICATION Spec
CONSTANTS
  W = 2
  Bases <- SomeBases
  MaxK = 8
  HalfOff = 0
  ReduceTop = TRUE
INVARIANTS Decomposes Recombines Idempotents
CHECK_DEADLOCK FALSE

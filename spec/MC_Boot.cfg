SPECIFICATION Spec
INVARIANTS Right Nominal
CHECK_DEADLOCK FALSE
CONSTANTS
  A = 4
  Msg = 5
  I = 3
  E = 2
  Fe = 1
  Top = 12
  DropC = 1
  DropM = 2
  DropS = 1
  Keep = "raised"

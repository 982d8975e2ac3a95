SPECIFICATION Spec
INVARIANT HistoryFree
CHECK_DEADLOCK FALSE
CONSTANTS
  Size = {1, 2}
  Arg = {0, 1, 2}
  Seed = {0, 1}
  Shared = FALSE
  Consumed = FALSE
  FromArg = FALSE
  DrawsToBuild = FALSE
  Scratch = FALSE
  Depth = 40

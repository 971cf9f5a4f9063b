SPECIFICATION GSpec
CONSTANTS
  W = {1,2,3}
  Runs <- GRuns
  Cap = 64
  Fixed = TRUE
  Spurious = FALSE
  Depth = 70
INVARIANTS Out
CHECK_DEADLOCK FALSE

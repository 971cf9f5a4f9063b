CONSTANTS
  W = {1,2,3}
  Runs <- MCRuns
  Cap = 2
  Fixed = TRUE
  Spurious = FALSE
SPECIFICATION Spec
INVARIANTS NotBad Once Whole Capacity


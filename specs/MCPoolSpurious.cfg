CONSTANTS
  W = {1,2}
  Runs <- MCRuns
  Cap = 2
  Fixed = TRUE
  Spurious = TRUE
SPECIFICATION Spec
INVARIANTS NotBad Once Whole Capacity


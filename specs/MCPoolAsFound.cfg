CONSTANTS
  W = {1,2}
  Runs <- MCRuns
  Cap = 2
  Fixed = FALSE
  Spurious = FALSE
SPECIFICATION Spec
INVARIANTS NotBad Once Whole Capacity
PROPERTY Finishes

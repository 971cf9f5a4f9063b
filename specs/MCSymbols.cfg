SPECIFICATION Spec
CONSTANTS
  Threads = {1,2}
  Work <- DeepWork
  Chains = 1
  Page = 4
  Dev = "none"
INVARIANTS Agree Named NotBad Dense
PROPERTY Finishes
CHECK_DEADLOCK FALSE

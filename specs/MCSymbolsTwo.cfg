SPECIFICATION Spec
CONSTANTS
  Threads = {1,2,3}
  Work <- MCWork
  Chains = 2
  Page = 4
  Dev = "none"
INVARIANTS Agree Named NotBad Dense
PROPERTY Finishes
CHECK_DEADLOCK FALSE

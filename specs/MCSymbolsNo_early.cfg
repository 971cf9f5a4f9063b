SPECIFICATION Spec
CONSTANTS
  Threads = {1,2,3}
  Work <- MCWork
  Chains = 2
  Page = 4
  Dev = "early"
INVARIANTS Agree Named NotBad Dense

CHECK_DEADLOCK FALSE

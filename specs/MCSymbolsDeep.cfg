SPECIFICATION Spec
CONSTANTS
  Threads = {1,2,3}
  Work <- DeepWork
  Chains = 2
  Page = 4
  Dev = "none"
INVARIANTS Agree Named NotBad Dense

CHECK_DEADLOCK FALSE

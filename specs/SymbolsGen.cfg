SPECIFICATION GSpec
CONSTANTS
  Threads = {1,2,3}
  Work <- DeepWork
  Chains = 2
  Page = 4
  Dev = "none"
  Depth = 60
INVARIANTS Out

CHECK_DEADLOCK FALSE

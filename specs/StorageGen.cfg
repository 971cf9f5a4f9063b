SPECIFICATION GSpec
CONSTANTS
  Procs = {1, 2}
  Slots = {1, 2}
  Paths = {1, 2, 3}
  Syms = {"a", "b", "c", "d", "e"}
  MaxLen = 4
  MaxOps = 16
  Care <- All
INVARIANTS Kept Stored Out
CHECK_DEADLOCK FALSE

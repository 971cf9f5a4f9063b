SPECIFICATION Spec
CONSTANTS
  Procs = {p, q}
  Slots = {x, y}
  Paths = {t, u}
  Syms = {a, b}
  MaxLen = 2
  MaxOps = 5
  Care <- All
INVARIANTS Kept Stored
PROPERTIES Grows
CHECK_DEADLOCK FALSE
SYMMETRY Sym

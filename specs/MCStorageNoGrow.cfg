SPECIFICATION Spec
CONSTANTS
  Procs = {p, q}
  Slots = {x}
  Paths = {t, u}
  Syms = {a, b}
  MaxLen = 2
  MaxOps = 4
  Care <- NoGrow
INVARIANTS Kept Stored
PROPERTIES Grows
CHECK_DEADLOCK FALSE
SYMMETRY Sym

SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Kinds = {"like", "split"}
INVARIANTS Calendar RoundTrip Context Patterns Parts
CHECK_DEADLOCK FALSE

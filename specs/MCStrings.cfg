SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Kinds = {"like", "split"}
INVARIANTS Calendar RoundTrip Context Patterns Parts
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Kinds = {"day", "value"}
INVARIANTS Calendar RoundTrip Context Patterns Parts
CHECK_DEADLOCK FALSE

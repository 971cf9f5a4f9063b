SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Kinds = {"day", "value"}
INVARIANTS Calendar RoundTrip Context Patterns Parts
CHECK_DEADLOCK FALSE

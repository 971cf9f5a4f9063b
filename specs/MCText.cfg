SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Kinds = {"value", "text"}
INVARIANTS Calendar RoundTrip Context Patterns Parts
CHECK_DEADLOCK FALSE

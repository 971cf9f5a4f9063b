SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Kinds = {"value", "text"}
INVARIANTS Calendar RoundTrip Context Patterns Parts
CHECK_DEADLOCK FALSE

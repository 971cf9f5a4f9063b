SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Kinds = {"fields", "text"}
INVARIANTS WrittenIsRead OneOutcome LineEnds
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Kinds = {"fields", "text"}
INVARIANTS WrittenIsRead OneOutcome LineEnds
CHECK_DEADLOCK FALSE

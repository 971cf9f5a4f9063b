SPECIFICATION Spec
INVARIANT Done
CHECK_DEADLOCK FALSE
CONSTANT SymRank <- TraceSymRank

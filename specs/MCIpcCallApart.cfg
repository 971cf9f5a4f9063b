SPECIFICATION Spec
CONSTANTS Calls = 4
 Pushes = 4
 TellApart = FALSE
 CloseLate = TRUE
VIEW View
INVARIANTS Right InOrder
CHECK_DEADLOCK FALSE

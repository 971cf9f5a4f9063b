SPECIFICATION Spec
CONSTANTS Calls = 4
 Pushes = 4
 TellApart = TRUE
 CloseLate = FALSE
VIEW View
INVARIANTS Right InOrder
CHECK_DEADLOCK FALSE

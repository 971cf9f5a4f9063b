SPECIFICATION GSpec
CONSTANTS Calls = 6
 Pushes = 8
 TellApart = TRUE
 CloseLate = TRUE
 Depth = 40
INVARIANTS Out
CHECK_DEADLOCK FALSE

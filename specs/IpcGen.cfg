SPECIFICATION GSpec
CONSTANTS Clients = {1,2,3}
 N = 6
 MsgLen = 2
 Rep = 3
 Cap = 2
 Closers = {}
 Shutters = {2}
 Flush = TRUE
 KeepQueue = TRUE
 ReadHup = TRUE
 OnceFree = TRUE
 Depth = 120
INVARIANTS Out
CHECK_DEADLOCK FALSE

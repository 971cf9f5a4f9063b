SPECIFICATION Spec
CONSTANTS Clients = {1,2}
 N = 2
 MsgLen = 2
 Rep = 2
 Cap = 2
 Closers = {}
 Shutters = {2}
 Flush = TRUE
 KeepQueue = TRUE
 ReadHup = TRUE
 OnceFree = TRUE
INVARIANTS Ordered Stream Handles Processed
PROPERTY Delivered
CHECK_DEADLOCK FALSE

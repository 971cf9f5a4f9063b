SPECIFICATION Spec
CONSTANTS Clients = {1}
 N = 2
 MsgLen = 1
 Rep = 1
 Cap = 1
 Closers = {}
 Shutters = {1}
 Flush = TRUE
 KeepQueue = TRUE
 ReadHup = FALSE
 OnceFree = TRUE
INVARIANTS Ordered Stream Handles Processed
PROPERTY Delivered
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Clients = {1,2,3}
 N = 1
 MsgLen = 1
 Rep = 1
 Cap = 1
 Closers = {1}
 Shutters = {}
 Flush = TRUE
 KeepQueue = TRUE
 ReadHup = TRUE
 OnceFree = FALSE
INVARIANTS Ordered Stream Handles Processed
PROPERTY Delivered
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Clients = {1}
 N = 2
 MsgLen = 1
 Rep = 2
 Cap = 1
 Closers = {}
 Shutters = {}
 Flush = FALSE
 KeepQueue = TRUE
 ReadHup = TRUE
 OnceFree = TRUE
INVARIANTS Ordered Stream Handles Processed
PROPERTY Delivered
CHECK_DEADLOCK FALSE

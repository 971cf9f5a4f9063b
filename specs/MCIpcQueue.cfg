SPECIFICATION Spec
CONSTANTS Clients = {1}
 N = 5
 MsgLen = 1
 Rep = 2
 Cap = 1
 Closers = {}
 Shutters = {}
 Flush = TRUE
 KeepQueue = FALSE
 ReadHup = TRUE
 OnceFree = TRUE
INVARIANTS Ordered Stream Handles Processed
PROPERTY Delivered
CHECK_DEADLOCK FALSE

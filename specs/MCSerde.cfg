SPECIFICATION Spec
INVARIANT Inv Bytes Inj
CHECK_DEADLOCK FALSE
CONSTANTS PARTS = 64 DEEP = TRUE

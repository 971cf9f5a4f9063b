SPECIFICATION Spec
VIEW View
CONSTANTS K = 1
 Big = 1
 Slabs = 0
 SlabCap = 1
 Workers = 2
 MaxPools = 2
 MaxLive = 2
 CheckOwner = TRUE
INVARIANTS Disjoint Complete InPool Owned NotCorrupt Home
CHECK_DEADLOCK FALSE

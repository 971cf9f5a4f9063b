SPECIFICATION Spec
VIEW View
CONSTANTS K = 2
 Big = 2
 Slabs = 1
 SlabCap = 1
 Workers = 1
 MaxPools = 1
 MaxLive = 3
 CheckOwner = TRUE
INVARIANTS Disjoint Complete InPool Owned NotCorrupt Home
CHECK_DEADLOCK FALSE

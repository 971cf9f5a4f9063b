SPECIFICATION Spec
VIEW View
CONSTANTS K = 2
 Big = 2
 Slabs = 0
 SlabCap = 1
 Workers = 1
 MaxPools = 2
 MaxLive = 3
 CheckOwner = FALSE
INVARIANTS Disjoint Complete InPool Owned NotCorrupt Home
CHECK_DEADLOCK FALSE

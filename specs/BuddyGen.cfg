SPECIFICATION GSpec
CONSTANTS K = 5
 Big = 6
 Slabs = 0
 SlabCap = 1
 Workers = 3
 MaxPools = 40
 MaxLive = 24
 CheckOwner = TRUE
 Depth = 150
INVARIANTS NotCorrupt Home Out
CHECK_DEADLOCK FALSE

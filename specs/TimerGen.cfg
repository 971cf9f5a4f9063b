SPECIFICATION GSpec
CONSTANTS
  Tics = {0,1,2,3,5,7}
  Nums = {0,1,2,3}
  MaxAdds = 24
  MaxNow = 30
  Cap0 = 16
  Repairs = {"up","id","self","inf","grow"}
  Depth = 60
INVARIANTS Out
CHECK_DEADLOCK FALSE

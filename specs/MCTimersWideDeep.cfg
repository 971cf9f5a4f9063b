SPECIFICATION Spec
CONSTANTS
  Tics = {1,2,3,4,5}
  Nums = {1}
  MaxAdds = 7
  MaxNow = 0
  Cap0 = 8
  Repairs = {"up","id","self","inf","grow"}
INVARIANTS Same Ordered Earliest Unique NamesIt
CHECK_DEADLOCK FALSE

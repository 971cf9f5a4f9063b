SPECIFICATION Spec
CONSTANTS
  Tics = {0,1,3}
  Nums = {0,1,2}
  MaxAdds = 4
  MaxNow = 5
  Cap0 = 2
  Repairs = {"up","id","self","inf","grow"}
INVARIANTS Same Ordered Earliest Unique NamesIt
CHECK_DEADLOCK FALSE

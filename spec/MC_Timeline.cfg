SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxL = 3
  NMobs = 3
INVARIANTS OneAnswer Overlap Forward Complete EndOfLast Closure Ordered
CHECK_DEADLOCK FALSE

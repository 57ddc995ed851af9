SPECIFICATION Spec
CONSTANTS
  Times = {0, 600, 750, 1500}
  Vals = {8, 0, 20}
  MaxLen = 3
INVARIANTS InOrder OnlyThat Exact Somewhere Narrow
CHECK_DEADLOCK FALSE

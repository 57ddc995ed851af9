SPECIFICATION Spec
CONSTANTS
  Names = {"n1", "n2"}
  Vals = {"u", "v"}
  MaxLen = 3
INVARIANTS Mapping Listed Size Older
CHECK_DEADLOCK FALSE

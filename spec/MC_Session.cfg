CONSTANTS
  Hs = {"a", "b"}
  Vs = {1, 2}
  Modes = {"r", "rb", "rw", "r+", "rb+", "w", "w+", "wb+", "x", ""}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT Inv
PROPERTY Harmless
CHECK_DEADLOCK FALSE

CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Vals = {7}
  Cap = 3
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT InvOk
PROPERTY Drops
CHECK_DEADLOCK FALSE

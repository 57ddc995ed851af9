CONSTANTS
  Names = {"a"}
  Sizes = {2048, 2049}
  MaxDepth = 1
  MaxLen = 6145
  MaxRuns = 3
  MaxNodes = 1
  Modes = {"r", "w", "rw"}
  EndOff = {0}
  OpSet = {"open", "write", "read", "seek", "truncate", "reopen"}
INIT Init
NEXT Next
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
VIEW View
INVARIANT Inv
PROPERTY FrameProp
CHECK_DEADLOCK FALSE

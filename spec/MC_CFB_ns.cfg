CONSTANTS
  Names = {"a", "bb"}
  Sizes = {1}
  MaxDepth = 2
  MaxLen = 1
  MaxRuns = 1
  MaxNodes = 3
  Modes = {"w"}
  EndOff = {0}
  OpSet = {"mkdir", "open", "write", "remove", "rmtree", "move", "exists", "reopen"}
INIT Init
NEXT Next
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
VIEW View
INVARIANT Inv
PROPERTY FrameProp
CHECK_DEADLOCK FALSE

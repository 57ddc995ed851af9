CONSTANTS
  Scope = "vec"
  MaxXs = 1
  IdxN = 2
  Toks = {"0:0"}
  Fills = 2
  OpSet = {"append", "extend", "assign", "insert", "setitem", "pop", "getitem", "clear", "none", "del", "reopen", "gc", "save", "popkey", "getkey", "set1", "swrite", "setkey", "mobof", "essof", "wextend", "wassign", "wclear", "setval", "copy"}
INIT Init
NEXT Next
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
VIEW View
INVARIANT Inv
PROPERTY FrameProp
CHECK_DEADLOCK FALSE

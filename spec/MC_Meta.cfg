INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
INVARIANT Inv
INVARIANT Answers

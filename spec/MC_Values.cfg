INIT Init
NEXT Next
INVARIANTS Lossless Idempotent ByteSized Sized
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxSize = 2
  MaxBuf = 2
  Emit = TRUE
  Both = TRUE
INVARIANTS Promised Honest Delivered AfterOne Emitted

CHECK_DEADLOCK FALSE


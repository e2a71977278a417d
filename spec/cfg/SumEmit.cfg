SPECIFICATION Spec
CONSTANTS
  MaxSize = 3
  MaxBuf = 4
  Emit = TRUE
  Both = FALSE
INVARIANTS Promised Honest Delivered AfterOne Emitted

CHECK_DEADLOCK FALSE


SPECIFICATION Spec
CONSTANTS
  MaxSize = 5
  MaxBuf = 6
  Emit = FALSE
  Both = TRUE
INVARIANTS Promised Honest Delivered AfterOne Emitted
PROPERTIES Ends
CHECK_DEADLOCK FALSE
VIEW View

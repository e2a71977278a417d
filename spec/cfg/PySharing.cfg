SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Objs = {1}
  MaxOps = 2
  Kinds = {"update", "final", "reinit"}
  Locked = TRUE
  Depth = 100
  Starts = {"open"}
INVARIANTS Exclusive Alive Digests
PROPERTIES Kept
CHECK_DEADLOCK FALSE

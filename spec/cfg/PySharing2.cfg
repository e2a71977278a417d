SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Objs = {1, 2}
  MaxOps = 2
  Kinds = {"update", "final", "reinit", "drop", "bad"}
  Locked = TRUE
  Depth = 100
  Starts = {"raw", "open"}
INVARIANTS Exclusive Alive Digests
PROPERTIES Kept Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Objs = {1}
  MaxOps = 2
  Kinds = {"update", "final", "reinit"}
  Locked = FALSE
  Depth = 100
  Starts = {"open"}
INVARIANTS Digests

CHECK_DEADLOCK FALSE

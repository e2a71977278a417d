SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Objs = {1}
  MaxOps = 2
  Kinds = {"update", "final", "reinit", "drop", "bad"}
  Locked = TRUE
  Depth = 14
  Starts = {"raw", "open"}
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE

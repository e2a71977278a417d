SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Objs = {1}
  MaxOps = 1
  Kinds = {"update", "final", "reinit", "drop"}
  Locked = TRUE
  Depth = 14
  Starts = {"open"}
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE

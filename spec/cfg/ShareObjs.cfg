SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Objs = {1, 2}
  MaxOps = 1
  Kinds = {"update", "final", "reinit", "calc", "hmac"}
  Locked = TRUE
  Depth = 14
  Starts = {"open"}
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE

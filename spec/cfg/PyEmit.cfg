SPECIFICATION Spec
CONSTANTS
  Objs = {0}
  Algs = {"md5"}
  MaxUpd = 2
  WithBad = TRUE
  WithFault = FALSE
  Depth = 99
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE

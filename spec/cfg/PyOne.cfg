SPECIFICATION Spec
CONSTANTS
  Objs = {0}
  Algs = {"md5"}
  MaxUpd = 2
  WithBad = FALSE
  WithFault = FALSE
  Depth = 7
VIEW View
CONSTRAINT EmitComplete
CHECK_DEADLOCK FALSE

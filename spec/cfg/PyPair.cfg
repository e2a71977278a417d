SPECIFICATION Spec
CONSTANTS
  Objs = {0, 1}
  Algs = {"md5"}
  MaxUpd = 1
  WithBad = FALSE
  WithFault = FALSE
  Depth = 5
VIEW View
CONSTRAINT EmitComplete
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Objs = {0, 1}
  Algs = {"md5", "sha512"}
  MaxUpd = 1
  WithBad = TRUE
  WithFault = TRUE
  Depth = 99
VIEW View
INVARIANT TypeOK
PROPERTY Droppable
PROPERTY Harmless
PROPERTY Independent
PROPERTY Delivered
PROPERTY Refused
PROPERTY Initialised
CHECK_DEADLOCK FALSE

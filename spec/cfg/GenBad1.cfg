SPECIFICATION Spec
CONSTANTS
  GenSlots = {0}
  GenAlgs = {"md5"}
  MaxUpd = 2
  Sizes = "many"
  WithBad = TRUE
  WithFault = FALSE
  WithShot = TRUE
  AfterDone = TRUE
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition

SPECIFICATION Spec
CONSTANTS
  GenSlots = {0, 1}
  GenAlgs = {"md5", "sha512"}
  MaxUpd = 1
  Sizes = "few"
  WithBad = TRUE
  WithFault = TRUE
  WithShot = TRUE
  AfterDone = TRUE
INVARIANTS TypeOK Releasable
PROPERTIES Harmless Independent Delivered Exact Determined
VIEW View
CHECK_DEADLOCK FALSE

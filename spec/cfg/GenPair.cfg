SPECIFICATION Spec
CONSTANTS
  GenSlots = {0, 1}
  GenAlgs = {"md5", "sha512"}
  MaxUpd = 1
  Sizes = "few"
  WithBad = FALSE
  WithFault = FALSE
  WithShot = FALSE
  AfterDone = FALSE
CHECK_DEADLOCK FALSE
INVARIANT EmitComplete

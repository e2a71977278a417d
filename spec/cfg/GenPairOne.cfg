SPECIFICATION Spec
CONSTANTS
  GenSlots = {0, 1}
  GenAlgs = {"md5", "sha1", "sha224", "sha256", "sha512"}
  MaxUpd = 1
  Sizes = "one"
  WithBad = FALSE
  WithFault = FALSE
  WithShot = FALSE
  AfterDone = FALSE
CHECK_DEADLOCK FALSE
INVARIANT EmitComplete

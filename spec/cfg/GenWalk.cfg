SPECIFICATION WalkSpec
CONSTANTS
  GenSlots = {0, 1, 2}
  GenAlgs = {"md5", "sha1", "sha224", "sha256", "sha512"}
  MaxUpd = 8
  Sizes = "many"
  WithBad = TRUE
  WithFault = FALSE
  WithShot = TRUE
  AfterDone = TRUE
INVARIANT EmitWalk
CHECK_DEADLOCK FALSE

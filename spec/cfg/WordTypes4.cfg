SPECIFICATION Spec
CONSTANTS
  Domain = "types"
  Tokens = {"md5", "MD5", "sha", "SHA", "Sha", "-", "_", "1", "224", "256", "512", ","}
  MaxTokens = 4
  Emit = TRUE
INVARIANTS Sound Emitted
CHECK_DEADLOCK FALSE

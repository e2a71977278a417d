SPECIFICATION Spec
CONSTANTS
  Domain = "argv"
  Tokens = {"-", "a", "b", "x", "|"}
  MaxTokens = 6
  Emit = TRUE
INVARIANTS Sound Emitted
CHECK_DEADLOCK FALSE

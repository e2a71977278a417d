SPECIFICATION Spec
CONSTANTS
  Domain = "argv"
  Tokens = {"-", "a", "b", "x", "|"}
  MaxTokens = 7
  Emit = TRUE
INVARIANTS Sound Emitted
CHECK_DEADLOCK FALSE

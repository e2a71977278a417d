SPECIFICATION Spec
CONSTANTS
  Domain = "size"
  Tokens = {"0", "7", "18", "1024", ".", "5", " ", "K", "m", "G", "T", "E", "y", "B", "i", "x"}
  MaxTokens = 4
  Emit = TRUE
INVARIANTS Sound Emitted
CHECK_DEADLOCK FALSE

SPECIFICATION FillSpec
CONSTANTS
  B = 128
  LF = 16
  MaxLen = 0
  MaxPiece = 384
CHECK_DEADLOCK FALSE

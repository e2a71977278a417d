SPECIFICATION FillSpec
CONSTANTS
  B = 128
  LF = 16
  MaxLen = 0
  MaxPiece = 0
CHECK_DEADLOCK FALSE

SPECIFICATION FillSpec
CONSTANTS
  B = 64
  LF = 8
  MaxLen = 0
  MaxPiece = 192
CHECK_DEADLOCK FALSE

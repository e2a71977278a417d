SPECIFICATION FillSpec
CONSTANTS
  B = 64
  LF = 8
  MaxLen = 0
  MaxPiece = 0
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  B = 8
  LF = 1
  MaxLen = 26
  MaxPiece = 26
INVARIANTS Refines PartialIsPartial CountIsExact OneResult PadOk
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  B = 4
  LF = 2
  MaxLen = 13
  MaxPiece = 13
INVARIANTS Refines PartialIsPartial CountIsExact OneResult PadOk
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  B = 3
  LF = 3
  MaxLen = 13
  MaxPiece = 13
INVARIANTS Refines PartialIsPartial CountIsExact OneResult PadOk
CHECK_DEADLOCK FALSE

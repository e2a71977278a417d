SPECIFICATION Spec
INVARIANTS NothingKept CorrectResult FaultReported
PROPERTIES CleanWhenReleased Terminates
CHECK_DEADLOCK FALSE

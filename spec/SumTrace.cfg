SPECIFICATION Spec
VIEW Position
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

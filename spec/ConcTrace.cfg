SPECIFICATION Spec
CONSTRAINT Reach2
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

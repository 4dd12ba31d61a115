SPECIFICATION Spec
INVARIANT Inv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

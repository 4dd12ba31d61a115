SPECIFICATION CSpec
INVARIANT CInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
INVARIANT CInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

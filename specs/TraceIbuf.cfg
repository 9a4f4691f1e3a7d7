SPECIFICATION TSpec
INVARIANT IbufInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

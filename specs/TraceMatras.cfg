SPECIFICATION TSpec
INVARIANT MInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

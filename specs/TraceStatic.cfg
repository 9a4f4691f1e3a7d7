SPECIFICATION TSpec
INVARIANT SInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
INVARIANT LsInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

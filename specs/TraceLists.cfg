SPECIFICATION TSpec
INVARIANT LInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

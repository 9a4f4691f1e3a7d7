SPECIFICATION TSpec
INVARIANT BInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT GroupMax = 32
INVARIANT Inv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

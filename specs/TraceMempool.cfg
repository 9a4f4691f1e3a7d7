SPECIFICATION TSpec
CONSTANT ColdDiv = 8
INVARIANT Inv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

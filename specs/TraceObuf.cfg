SPECIFICATION TSpec
CONSTANT IovMax = 31
INVARIANT TraceInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

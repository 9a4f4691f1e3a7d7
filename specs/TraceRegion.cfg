SPECIFICATION TSpec
INVARIANT BlocksAgree
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
POSTCONDITION MtAccepted
CHECK_DEADLOCK FALSE

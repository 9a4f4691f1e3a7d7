SPECIFICATION Spec
CONSTANTS MaxOps = 8 MaxLive = 4
VIEW View
INVARIANTS CInv Emit
CHECK_DEADLOCK FALSE

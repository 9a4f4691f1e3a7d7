SPECIFICATION Spec
CONSTANTS MaxOps = 5 MaxLive = 3
VIEW View
INVARIANTS CInv Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxOps = 6 NE = 4 NL = 2
VIEW View
INVARIANTS LInv Emit
CHECK_DEADLOCK FALSE

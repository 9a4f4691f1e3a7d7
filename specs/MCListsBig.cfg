SPECIFICATION Spec
CONSTANTS MaxOps = 6 NE = 4 NL = 3
VIEW View
INVARIANTS LInv Emit
CHECK_DEADLOCK FALSE

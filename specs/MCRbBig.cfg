SPECIFICATION Spec
CONSTANTS NMax = 20 MaxOps = 26
VIEW View
INVARIANTS TreeInv Emit
CHECK_DEADLOCK FALSE

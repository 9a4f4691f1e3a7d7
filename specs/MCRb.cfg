SPECIFICATION Spec
CONSTANTS NMax = 15 MaxOps = 20
VIEW View
INVARIANTS TreeInv Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS ColdDiv = 2 CAP = 12 NSLABS = 3
VIEW View
INVARIANTS MempoolInv Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS ColdDiv = 2 CAP = 6 NSLABS = 3
VIEW View
INVARIANTS MempoolInv Emit
CHECK_DEADLOCK FALSE

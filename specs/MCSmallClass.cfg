SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxG = 3 MaxSize = 400 NClasses = 40
INVARIANTS Right Promised Classified Inverse
CHECK_DEADLOCK FALSE

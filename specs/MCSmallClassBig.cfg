SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxG = 5 MaxSize = 3000 NClasses = 80
INVARIANTS Right Promised Classified Inverse
CHECK_DEADLOCK FALSE

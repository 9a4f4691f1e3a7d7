SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 4, 6} MaxSlabs = 4 MaxLive = 12 MaxOps = 9 Counts = {1, 2, 9} NSvp = 1
VIEW View
INVARIANTS LsInv Once Complete Emit
PROPERTY Keep
CHECK_DEADLOCK FALSE

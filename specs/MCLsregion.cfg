SPECIFICATION Spec
CONSTANTS Sizes = {1, 3, 4, 6} MaxSlabs = 3 MaxLive = 12 MaxOps = 6 Counts = {1, 9} NSvp = 1
VIEW View
INVARIANTS LsInv Once Complete Emit
PROPERTY Keep
CHECK_DEADLOCK FALSE

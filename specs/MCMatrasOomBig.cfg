SPECIFICATION Spec
CONSTANTS Views = {1, 2} MaxOps = 9 Ranges = {1, 2} Limits = {0, 1, 2, 1000} Reserves = {1, 2}
VIEW View
INVARIANTS MInv NeighbourTheorem NewestTheorem HeadReads ViewsRead Promised Emit
CHECK_DEADLOCK FALSE

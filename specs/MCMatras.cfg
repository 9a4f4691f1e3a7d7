SPECIFICATION Spec
CONSTANTS Views = {1, 2} MaxOps = 9 Ranges = {1, 2} Limits = {} Reserves = {}
VIEW View
INVARIANTS MInv NeighbourTheorem NewestTheorem HeadReads ViewsRead Promised Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxUsed = 13 MaxEnts = 5 MaxBlocks = 4 Sizes = {1, 3, 4, 6}
VIEW View
INVARIANTS RegionInv Emit
CHECK_DEADLOCK FALSE

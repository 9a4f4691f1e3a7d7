SPECIFICATION Spec
CONSTANTS MaxUsed = 9 MaxEnts = 4 MaxBlocks = 3 Sizes = {1, 3, 4, 6}
VIEW View
INVARIANTS RegionInv Emit
CHECK_DEADLOCK FALSE

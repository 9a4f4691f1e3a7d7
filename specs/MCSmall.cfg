SPECIFICATION Spec
CONSTANTS
    GroupMax = 3
    Classes <- CL
    Slabs <- SL
    Cap = 2 MaxSlabs = 4 MaxChunks = 6
VIEW View
INVARIANTS SmallInv MemoryBounded Emit
CHECK_DEADLOCK FALSE

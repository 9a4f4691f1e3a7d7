SPECIFICATION Spec
CONSTANTS
    GroupMax = 3
    Classes <- CL
    Slabs <- SL
    Cap = 2 MaxSlabs = 5 MaxChunks = 8
VIEW View
INVARIANTS SmallInv MemoryBounded Emit
CHECK_DEADLOCK FALSE

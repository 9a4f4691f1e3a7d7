SPECIFICATION Spec
CONSTANTS OMAX = 2 NSLABS = 2 MAXLIVE = 5 MAXBIG = 1
VIEW View
INVARIANTS SlabCacheInv Emit
CHECK_DEADLOCK FALSE

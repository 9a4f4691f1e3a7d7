SPECIFICATION Spec
CONSTANTS Start = 5 MaxCap = 40 Sizes = {1, 2, 3, 4, 5, 7, 8, 11, 16}
VIEW View
INVARIANTS IbufInv Fifo Emit
CHECK_DEADLOCK FALSE

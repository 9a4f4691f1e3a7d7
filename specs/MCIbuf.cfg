SPECIFICATION Spec
CONSTANTS Start = 2 MaxCap = 16 Sizes = {1, 2, 3, 5, 7}
VIEW View
INVARIANTS IbufInv Fifo Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxOps = 4 Sizes = {0, 1, 3, 6, 7} Aligns = {1, 2}
VIEW View
INVARIANTS SInv Emit
PROPERTY Window
CHECK_DEADLOCK FALSE

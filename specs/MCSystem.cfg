SPECIFICATION Spec
CONSTANTS Boxes = {1,3,5,7,9,11,13} Sizes = {1,2} MaxPieces = 3 MaxOps = 4
VIEW View
INVARIANTS Owned Ordered Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE

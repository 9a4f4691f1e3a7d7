SPECIFICATION Spec
CONSTANTS Boxes = {1,3,5,7,9,11,13} Sizes = {1,2,3} MaxPieces = 4 MaxOps = 5
VIEW View
INVARIANTS Owned Ordered Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE

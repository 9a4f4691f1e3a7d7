SPECIFICATION Spec
CONSTANTS IovMax = 3 Start = 2 MaxCap = 18 Sizes = {1,3,4} MaxSvp = 1
VIEW View
INVARIANTS ObufInv SvpPrefix Emit
PROPERTY NoMove
CHECK_DEADLOCK FALSE

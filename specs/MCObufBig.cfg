SPECIFICATION Spec
CONSTANTS IovMax = 3 Start = 2 MaxCap = 25 Sizes = {1,2,3,4,8} MaxSvp = 1
VIEW View
INVARIANTS ObufInv SvpPrefix Emit
PROPERTY NoMove
CHECK_DEADLOCK FALSE

SPECIFICATION ASpec
CONSTANTS NT = 3 NE = 2 MaxOps = 2 Modulus = 8 Bound = 8
INVARIANT NeverWaits
CHECK_DEADLOCK FALSE

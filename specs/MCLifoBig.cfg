SPECIFICATION Spec
CONSTANTS NT = 2 NE = 3 MaxOps = 3 Modulus = 8
INVARIANTS Same Results Apart Emit
CHECK_DEADLOCK FALSE

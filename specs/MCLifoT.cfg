SPECIFICATION Spec
CONSTANTS NT = 2 NE = 2 MaxOps = 2 Modulus = 8
INVARIANTS Same Results Apart Emit
CHECK_DEADLOCK FALSE

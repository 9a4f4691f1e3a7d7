SPECIFICATION Spec
CONSTANTS NT = 2 MaxOps = 3 Limits = {2, 4} Pres = {0, 1} Masks = {0, 1, 2}
INVARIANTS Exact Emit
CHECK_DEADLOCK FALSE

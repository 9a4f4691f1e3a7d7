SPECIFICATION Spec
CONSTANTS NT = 3 MaxOps = 2 Limits = {2, 5} Pres = {0, 1} Masks = {0, 1, 2}
INVARIANTS Exact Emit
CHECK_DEADLOCK FALSE

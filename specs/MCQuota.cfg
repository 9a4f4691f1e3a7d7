SPECIFICATION Spec
CONSTANTS NT = 2 MaxOps = 2 Totals = {2, 4} Sizes = {1, 2, 3}
          Zero = 0 Add <- IAdd Sub <- ISub Leq <- ILeq Unit <- IUnit
INVARIANTS Exact Emit
CHECK_DEADLOCK FALSE

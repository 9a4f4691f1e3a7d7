SPECIFICATION ASpec
CONSTANTS NT = 2 MaxOps = 2 Totals = {2, 4} Sizes = {1, 2, 3} Bound = 6
          Zero = 0 Add <- IAdd Sub <- ISub Leq <- ILeq Unit <- IUnit
INVARIANT NeverWaits
CHECK_DEADLOCK FALSE

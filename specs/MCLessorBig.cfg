SPECIFICATION Spec
CONSTANTS NT = 2 MaxOps = 5 Totals = {10, 26} Sizes = {0, 1, 5, 9, 20}
          Zero = 0 Add <- IAdd Sub <- ISub Leq <- ILeq Unit <- IUnit
VIEW View
INVARIANTS QInv Sum Works Emit
CHECK_DEADLOCK FALSE

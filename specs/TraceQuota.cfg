SPECIFICATION TSpec
CONSTANTS Zero <- BigZero Add <- BigAdd Sub <- BigSub Leq <- BigLeq
          Unit <- BigKb
POSTCONDITION MtAccepted
CHECK_DEADLOCK FALSE

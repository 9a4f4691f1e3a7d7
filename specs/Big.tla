--------------------------------- MODULE Big ---------------------------------
(* Numbers of 64 bits and a bit more: four limbs of 16 bits, the least       *)
(* significant first, and what is above.                                     *)
EXTENDS Integers, Sequences
BigOf(q) == Append(q, 0)
BigZero == <<0, 0, 0, 0, 0>>
BigInt(n) == <<n % 65536, (n \div 65536) % 65536, 0, 0, 0>>
RECURSIVE BigAddAt(_, _, _, _)
BigAddAt(a, b, i, c) ==
    IF i = 5 THEN <<a[5] + b[5] + c>>
    ELSE LET s == a[i] + b[i] + c IN
         <<s % 65536>> \o BigAddAt(a, b, i + 1, s \div 65536)
BigAdd(a, b) == BigAddAt(a, b, 1, 0)
(* Of a smaller number from a larger one.                                    *)
RECURSIVE BigSubAt(_, _, _, _)
BigSubAt(a, b, i, c) ==
    IF i = 5 THEN <<a[5] - b[5] - c>>
    ELSE LET s == a[i] - b[i] - c IN
         <<IF s < 0 THEN s + 65536 ELSE s>>
         \o BigSubAt(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
BigSub(a, b) == BigSubAt(a, b, 1, 0)
RECURSIVE BigLeqAt(_, _, _)
BigLeqAt(a, b, i) == IF i = 0 THEN TRUE
                     ELSE IF a[i] # b[i] THEN a[i] < b[i]
                     ELSE BigLeqAt(a, b, i - 1)
BigLeq(a, b) == BigLeqAt(a, b, 5)
(* Up to a multiple of 1024.                                                 *)
BigKb(a) == LET s == BigAdd(a, BigInt(1023)) IN
            [s EXCEPT ![1] = @ - (@ % 1024)]
==============================================================================

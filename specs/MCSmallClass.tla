---------------------------- MODULE MCSmallClass ----------------------------
(* All parameters inside the bounds: the bit manipulation gives the classes  *)
(* of the specification, and the classes keep what the user is promised.     *)
EXTENDS SmallClass, TLC
CONSTANTS MaxN, MaxG, MaxSize, NClasses
VARIABLES n, g, min, q, ready
vars == <<n, g, min, q, ready>>
(* Up to the fourteenth doubling: TLC's numbers are 32 bits wide.           *)
Classes(k) == IF NClasses < 14 * Pow2(k) THEN NClasses ELSE 14 * Pow2(k)
Init ==
    /\ n \in 0..MaxN /\ g \in {Pow2(k) : k \in 0..MaxG}
    /\ min \in {g, 2 * g, 3 * g, 7 * g}
    /\ q = [i \in 1..Classes(n) |-> BitSize(n, g, min, i - 1)]
    /\ ready = FALSE
Next == ready = FALSE /\ ready' = TRUE /\ UNCHANGED <<n, g, min, q>>
Spec == Init /\ [][Next]_vars
Right == ClassesRight(n, g, min, q)
Promised == Increasing(q) /\ Multiples(q, g) /\ Gradual(n, g, min - g, q)
Classified ==
    \A s \in 1..MaxSize :
        s <= q[Len(q)] => IsClassOf(q, s, BitOffset(n, g, min, s))
Inverse == \A c \in 0..(Len(q) - 1) : BitOffset(n, g, min, q[c + 1]) = c
=============================================================================

------------------------------- MODULE MCBits -------------------------------
(* The set operators mean what they say on natural numbers.                  *)
EXTENDS Bits, FiniteSetsExt
CONSTANTS W
VARIABLES x, done
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Nat2(s) == MapThenSumSet(P2, s)
Init == x \in SUBSET (0..(W - 1)) /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, done>>
Smallest(S) == CHOOSE a \in S : \A b \in S : a <= b
Right ==
    LET v == Nat2(x) IN
    /\ \A k \in 0..(W - 1) :
        /\ Nat2(AlignUp(x, k)) =
              Smallest({m \in v..(v + P2(k)) : (m % P2(k)) = 0})
        /\ Nat2(AlignDown(x, k)) = v - (v % P2(k))
    /\ x # {} => /\ P2(Top(x)) <= v /\ v < P2(Top(x) + 1)
                 /\ Nat2(RoundUp(x)) =
                       Smallest({P2(k) : k \in 0..W} \cap (v..P2(W)))
=============================================================================

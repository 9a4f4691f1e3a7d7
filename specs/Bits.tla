-------------------------------- MODULE Bits --------------------------------
(* Natural numbers as sets of bit positions: as wide as the implementation's *)
EXTENDS Integers, FiniteSets

Top(x) == CHOOSE b \in x : \A c \in x : c <= b
RECURSIVE Plus(_, _)
Plus(x, k) == IF k \in x THEN Plus(x \ {k}, k + 1) ELSE x \cup {k}

AlignDown(x, k) == {b \in x : b >= k}
AlignUp(x, k) == IF \A b \in x : b >= k THEN x ELSE Plus(AlignDown(x, k), k)
RoundUp(x) == IF Cardinality(x) = 1 THEN x ELSE {Top(x) + 1}
=============================================================================

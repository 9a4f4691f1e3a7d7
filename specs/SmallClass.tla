----------------------------- MODULE SmallClass -----------------------------
(***************************************************************************)
(* Size classes.  The classes grow by one granule for the first 2^(n+1)     *)
(* classes less one, then every power of two is divided into 2^n steps.     *)
(* n is given by the effective factor 2^(1/2^n).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* Step from class c - 1 to class c; class -1 is `shift' = min - gran.      *)
Step(n, g, c) ==
    LET b == c \div Pow2(n) IN
    g * Pow2(IF b <= 1 THEN 0 ELSE b - 1)

(* Is the sequence q (q[1] is class 0) the right beginning of the classes?  *)
ClassesRight(n, g, min, q) ==
    /\ q # <<>> => q[1] = min
    /\ \A i \in 2..Len(q) : q[i] = q[i - 1] + Step(n, g, i - 1)

RECURSIVE ClassSize(_, _, _, _)
ClassSize(n, g, min, c) ==
    IF c = 0 THEN min ELSE ClassSize(n, g, min, c - 1) + Step(n, g, c)

(* The class of a size is the smallest one that holds it.                   *)
IsClassOf(q, size, c) ==
    /\ c \in 0..(Len(q) - 1)
    /\ size <= q[c + 1]
    /\ c = 0 \/ q[c] < size

(* The same for all sizes of 32 bits: numbers are pairs of 16 bits.         *)
PairOf(v) == <<v \div 65536, v % 65536>>
PairPow2(e) == IF e >= 16 THEN <<Pow2(e - 16), 0>> ELSE <<0, Pow2(e)>>
PairAdd(a, b) == LET s == a[2] + b[2] IN
                 <<a[1] + b[1] + s \div 65536, s % 65536>>
PairLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE Lg(_)
Lg(g) == IF g <= 1 THEN 0 ELSE 1 + Lg(g \div 2)
(* The exponent of the step to class c.                                     *)
StepExp(n, g, c) ==
    LET b == c \div Pow2(n) IN Lg(g) + (IF b <= 1 THEN 0 ELSE b - 1)
(* all = the classes of q as pairs and the rest of them up to 2^32.         *)
PairsRight(n, g, k, all) ==
    \A i \in (k + 1)..Len(all) :
        all[i] = PairAdd(all[i - 1], PairPow2(StepExp(n, g, i - 1)))
(* The class after the last one holds everything.                           *)
NoneLeft(n, g, all) ==
    PairAdd(all[Len(all)], PairPow2(StepExp(n, g, Len(all))))[1] > 65535
IsPairClassOf(all, size, c) ==
    /\ c \in 0..Len(all)
    /\ c < Len(all) => ~PairLess(all[c + 1], size)
    /\ c = 0 \/ PairLess(all[c], size)

(* What the user is promised, independently of the construction.            *)
Increasing(q) == \A i \in 2..Len(q) : q[i - 1] < q[i]
Multiples(q, g) == \A i \in 1..Len(q) : q[i] % g = 0
Gradual(n, g, shift, q) ==
    \A i \in 2..Len(q) :
        \/ q[i] - q[i - 1] <= g
        \/ (q[i] - q[i - 1]) * Pow2(n) <= q[i - 1] - shift

-----------------------------------------------------------------------------
(* The bit manipulation the library uses, on natural numbers.               *)
RECURSIVE Fls(_)
Fls(v) == IF v <= 1 THEN 0 ELSE 1 + Fls(v \div 2)

BitOffset(n, g, min, size) ==
    LET shift == min - g
        v == IF size - shift - 1 < 0 THEN 0 ELSE (size - shift - 1) \div g
        lg == IF v < Pow2(n) THEN 0 ELSE Fls(v \div Pow2(n)) IN
    IF v < Pow2(n) THEN v ELSE (v \div Pow2(lg)) + lg * Pow2(n)

BitSize(n, g, min, cls) ==
    LET c == cls + 1
        lin == c % Pow2(n)
        lg == c \div Pow2(n) IN
    (min - g) + (IF lg = 0 THEN lin
                 ELSE (lin + Pow2(n)) * Pow2(lg - 1)) * g
=============================================================================

------------------------------ MODULE RbTree --------------------------------
(***************************************************************************)
(* Left-leaning 2-3 red-black tree, the algorithm of rb.h in functional     *)
(* form: a node is <<value, red, left, right>>, <<>> is no node.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nil == <<>>
N(v, c, a, b) == <<v, c, a, b>>
V(t) == t[1]
L(t) == t[3]
R(t) == t[4]
Red(t) == IF t = Nil THEN FALSE ELSE t[2]
Paint(t, c) == N(V(t), c, L(t), R(t))
WithL(t, a) == N(V(t), t[2], a, R(t))
WithR(t, b) == N(V(t), t[2], L(t), b)

RECURSIVE InOrder(_)
InOrder(t) == IF t = Nil THEN <<>> ELSE InOrder(L(t)) \o <<V(t)>> \o InOrder(R(t))
RECURSIVE Height(_)
Height(t) == IF t = Nil THEN 0
             ELSE 1 + (IF Height(L(t)) > Height(R(t)) THEN Height(L(t))
                       ELSE Height(R(t)))
RECURSIVE Map(_, _)
Map(t, f) == IF t = Nil THEN Nil
             ELSE N(f[V(t)], t[2], Map(L(t), f), Map(R(t), f))
(* Number of black nodes on every way down, -1: it is not the same.          *)
RECURSIVE Black(_)
Black(t) == IF t = Nil THEN 0
            ELSE LET a == Black(L(t)) IN
                 IF a = -1 \/ a # Black(R(t)) THEN -1
                 ELSE a + (IF t[2] THEN 0 ELSE 1)
RECURSIVE Leaning(_)
Leaning(t) == \/ t = Nil
              \/ /\ ~Red(R(t)) /\ ~(Red(t) /\ Red(L(t)))
                 /\ Leaning(L(t)) /\ Leaning(R(t))

(* Insertion.                                                                *)
FixIns(t, left) ==
    IF left
    THEN IF Red(L(t)) /\ Red(L(L(t)))
         THEN N(V(L(t)), TRUE, Paint(L(L(t)), FALSE), WithL(t, R(L(t))))
         ELSE t
    ELSE IF ~Red(R(t)) THEN t
         ELSE IF Red(L(t))
         THEN N(V(t), TRUE, Paint(L(t), FALSE), Paint(R(t), FALSE))
         ELSE N(V(R(t)), t[2], N(V(t), TRUE, L(t), L(R(t))), R(R(t)))
RECURSIVE Ins(_, _)
Ins(t, v) ==
    IF t = Nil THEN N(v, TRUE, Nil, Nil)
    ELSE IF v < V(t) THEN FixIns(WithL(t, Ins(L(t), v)), TRUE)
    ELSE FixIns(WithR(t, Ins(R(t), v)), FALSE)
InsertIn(t, v) == Paint(Ins(t, v), FALSE)

(* Removal: a pair <<tree, its black height has decreased>>.                  *)
FixLeft(t, short) ==
    IF ~short THEN <<t, FALSE>>
    ELSE LET r == R(t)  rl == L(r) IN
      IF Red(rl)
      THEN <<N(V(rl), Red(t), N(V(t), FALSE, L(t), L(rl)), WithL(r, R(rl))),
             FALSE>>
      ELSE <<N(V(r), r[2], N(V(t), TRUE, L(t), L(r)), R(r)), ~Red(t)>>
FixRight(t, short) ==
    IF ~short THEN <<t, FALSE>>
    ELSE LET a == L(t) IN
      IF Red(a)
      THEN LET b == R(a) IN
           IF Red(L(b))
           THEN <<N(V(b), b[2], N(V(a), a[2], L(a), Paint(L(b), FALSE)),
                    WithL(t, R(b))), FALSE>>
           ELSE <<N(V(a), FALSE, L(a), WithL(t, Paint(b, TRUE))), FALSE>>
      ELSE IF Red(L(a))
      THEN <<N(V(a), Red(t), Paint(L(a), FALSE),
               N(V(t), FALSE, R(a), R(t))), FALSE>>
      ELSE <<N(V(t), FALSE, Paint(a, TRUE), R(t)), ~Red(t)>>
RECURSIVE Least(_)
Least(t) == IF L(t) = Nil THEN V(t) ELSE Least(L(t))
RECURSIVE Del(_, _)
Del(t, v) ==
    IF v < V(t)
    THEN LET d == Del(L(t), v) IN FixLeft(WithL(t, d[1]), d[2])
    ELSE IF v > V(t)
    THEN LET d == Del(R(t), v) IN FixRight(WithR(t, d[1]), d[2])
    ELSE IF R(t) # Nil
    THEN LET m == Least(R(t))  d == Del(R(t), m) IN
         FixRight(N(m, t[2], L(t), d[1]), d[2])
    ELSE IF L(t) # Nil THEN <<Paint(L(t), FALSE), FALSE>>
    ELSE <<Nil, ~t[2]>>
RemoveFrom(t, v) == Del(t, v)[1]
=============================================================================

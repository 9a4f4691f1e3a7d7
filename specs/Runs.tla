-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Byte streams.  A stream is a sequence of pieces <<v, n>>: n bytes with    *)
(* the values v, v + 1, ... modulo Mod.  Two streams hold the same bytes     *)
(* exactly when their canonical forms are equal.                            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
Mod == 251

RECURSIVE LenOf(_)
LenOf(q) == IF q = <<>> THEN 0 ELSE Head(q)[2] + LenOf(Tail(q))

(* One piece more at the end of a canonical stream.                         *)
Join(q, p) ==
    IF p[2] = 0 THEN q
    ELSE IF q # <<>> /\ ((q[Len(q)][1] + q[Len(q)][2]) % Mod) = (p[1] % Mod)
    THEN [q EXCEPT ![Len(q)] = <<@[1], @[2] + p[2]>>]
    ELSE Append(q, <<p[1] % Mod, p[2]>>)

RECURSIVE CanonAcc(_, _)
CanonAcc(acc, q) == IF q = <<>> THEN acc ELSE CanonAcc(Join(acc, Head(q)), Tail(q))
Canon(q) == CanonAcc(<<>>, q)

RECURSIVE DropFirst(_, _)
DropFirst(q, n) ==
    IF n = 0 THEN q
    ELSE IF Head(q)[2] <= n THEN DropFirst(Tail(q), n - Head(q)[2])
    ELSE <<<<(Head(q)[1] + n) % Mod, Head(q)[2] - n>>>> \o Tail(q)

RECURSIVE DropLast(_, _)
DropLast(q, n) ==
    IF n = 0 THEN q
    ELSE LET k == Len(q)  t == q[k] IN
         IF t[2] <= n THEN DropLast(SubSeq(q, 1, k - 1), n - t[2])
         ELSE SubSeq(q, 1, k - 1) \o <<<<t[1], t[2] - n>>>>

KeepFirst(q, n) == DropLast(q, LenOf(q) - n)
=============================================================================

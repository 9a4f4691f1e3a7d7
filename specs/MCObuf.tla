------------------------------- MODULE MCObuf -------------------------------
(* Blocks of 4, 8, 16 units hold one unit less.                              *)
EXTENDS Obuf, Json
CONSTANTS Start, MaxCap, Sizes, MaxSvp
VARIABLES hist, last, nv, old
vars == <<obvars, hist, last, nv, old>>

Init ==
    /\ ob = New(Start) /\ svps = <<>>
    /\ hist = <<>> /\ last = <<>> /\ nv = 0 /\ old = <<>>
LogOp(op) == hist' = Append(hist, op) /\ last' = op

RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
RECURSIVE Doubled(_, _)
Doubled(c, n) == IF c >= n THEN c ELSE Doubled(2 * c, n)
BlockFor(n) == CHOOSE c \in {3, 7, 15, 31, 63} :
    c >= n /\ \A d \in {3, 7, 15, 31, 63} : d >= n => c <= d
CapAt(p, n) == BlockFor(Doubled(IF Has(ob, p) THEN ob.v[p].cap
                                ELSE Start * Pow(p - 1), n))
Fresh(p, c) == <<p, c, IF Has(ob, p) THEN ob.v[p].at[3] + 1 ELSE 0>>
Bound(c) == SumCap(ob.v) + c <= MaxCap
Step(n) == nv' = (nv + n + 3) % Mod

DoReserve(n) ==
    /\ ob.resv = 0
    /\ LET p == Target(ob, n)  c == CapAt(p, n) IN
       IF NeedsBlock(ob, n) /\ (p > IovMax \/ ~Bound(c)) THEN Refused(n)
       ELSE Reserve(n, c, Fresh(p, c))
    /\ LogOp(<<"reserve", n>>) /\ UNCHANGED <<nv, old>>
DoAlloc(n) ==
    /\ ob.resv # 0 => n <= ob.resv
    /\ LET p == Target(ob, n)  c == CapAt(p, n) IN
       IF NeedsBlock(ob, n) /\ (p > IovMax \/ ~Bound(c)) THEN Refused(n)
       ELSE Alloc(nv, n, c, Fresh(p, c))
    /\ LogOp(<<"alloc", n>>) /\ Step(n) /\ UNCHANGED old
DoDup(n) ==
    /\ ob.resv = 0
    /\ LET f == Fill(ob, nv, n)  p == f.o.pos
           c == BlockFor(Doubled(Start * Pow(p - 1), f.left)) IN
       IF DupNeedsBlock(nv, n) /\ ~Bound(c) THEN DupRefused(nv, n)
       ELSE Dup(nv, n, c, <<p, c, 0>>)
    /\ LogOp(<<"dup", n>>) /\ Step(n) /\ UNCHANGED old
DoSvp == /\ ob.resv = 0 /\ Len(svps) < MaxSvp /\ Savepoint
         /\ old' = Append(old, ob.q)
         /\ LogOp(<<"svp">>) /\ UNCHANGED nv
DoRollback(k) == /\ Rollback(k) /\ old' = SubSeq(old, 1, k)
                 /\ LogOp(<<"rollback", k>>) /\ UNCHANGED nv
DoReset == ob.v # <<>> /\ Reset /\ old' = <<>> /\ LogOp(<<"reset">>)
           /\ UNCHANGED nv

Next ==
    \/ \E n \in Sizes : DoReserve(n) \/ DoAlloc(n) \/ DoDup(n)
    \/ DoSvp \/ DoReset
    \/ \E k \in 1..MaxSvp : DoRollback(k)
Spec == Init /\ [][Next]_vars

(* The data of a savepoint are the beginning of the stream, and rolling      *)
(* back gives exactly them.                                                 *)
SvpPrefix == \A i \in 1..Len(svps) :
    Canon(KeepFirst(ob.q, svps[i].used)) = Canon(old[i])
(* Bytes that stay do not move.                                             *)
NoMove == [][\A i \in 1..Len(ob.v) :
    i <= Len(ob.v') /\ (ob.v[i].len = 0 \/ ob.v[i].at = ob.v'[i].at)]_vars
View == <<[i \in 1..Len(ob.v) |-> <<ob.v[i].len, ob.v[i].cap>>], ob.pos,
          ob.resv, [i \in 1..Len(svps) |-> svps[i].used], last>>
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

----------------------------- MODULE MCChecked ------------------------------
EXTENDS Checked, Json
CONSTANTS MaxOps, MaxLive
VARIABLES hist, last
vars == <<cvars, hist, last>>
P == 1..2
A == 1..2
C == 1..2
Init == /\ pools = [p \in P |-> 0] /\ objs = <<>>
        /\ env = [hdr |-> 8, page |-> 64, arenas |-> <<16, 32>>] /\ hist = <<>> /\ last = <<>>
LogOp(op) == hist' = Append(hist, op) /\ last' = op
H == 1..MaxLive
NewH == CHOOSE h \in H \ DOMAIN objs : \A k \in H \ DOMAIN objs : h <= k
(* The environment may place an object anywhere it is free and aligned.       *)
Place(own, size, al) ==
    /\ Cardinality(DOMAIN objs) < MaxLive
    /\ \E off \in {o \in 0..64 : o % 16 = 0} :
        /\ off % al = 0 /\ Free(0, 2 * off, size)
        /\ \A o \in {x \in 0..(off - 1) : x % 16 = 0} :
             ~(o % al = 0 /\ Free(0, 2 * o, size))
        /\ Take(NewH, own, 0, 2 * off, size)
    /\ UNCHANGED <<pools, env>>
(* The rank of an object among those of its owner, as the driver counts.      *)
Rank(h) == Cardinality({k \in Owned(objs[h].own) : k < h})
Own0(own) == IF own > 200 THEN own - 201 + 5 ELSE IF own > 100 THEN own - 101 + 3 ELSE own - 1
Next ==
    /\ Len(hist) < MaxOps
    /\ \/ \E p \in P, s \in {3, 8} : Create(p, s) /\ LogOp(<<"create", p - 1, s>>)
       \/ \E p \in P : /\ pools[p] # 0
                       /\ Place(p, pools[p], ObjAlign(pools[p]))
                       /\ LogOp(<<"alloc", p - 1>>)
       \/ \E c \in C : Place(Cache(c), 16, SlabAlign) /\ LogOp(<<"get", c - 1, 5>>)
       \/ \E a \in A : /\ Place(Arena(a), env.arenas[a], MapAlign)
                       /\ LogOp(<<"map", a - 1>>)
       \/ \E h \in DOMAIN objs :
            \/ Give(h) /\ LogOp(<<"free", Own0(objs[h].own), Rank(h)>>)
            \/ \E k \in 0..5 : Misuse(h)
                 /\ LogOp(<<"misuse", Own0(objs[h].own), Rank(h), k>>)
       \/ \E p \in P : Destroy(p) /\ LogOp(<<"destroy", p - 1>>)
Spec == Init /\ [][Next]_vars
View == <<pools, [h \in DOMAIN objs |-> objs[h].own], last>>
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

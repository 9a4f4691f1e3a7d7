----------------------------- MODULE MCMempool -----------------------------
(* One pool; new slabs get an arbitrary place in the address order.          *)
EXTENDS Mempool, Json

CONSTANTS CAP, NSLABS

VARIABLES hist, last
vars == <<mpvars, hist, last>>

P == 1
Handles == 1..(CAP * NSLABS)
NewH == CHOOSE h \in Handles : h \notin DOMAIN objs

Init ==
    /\ pools = (P :> [objsize |-> 1, slabsize |-> CAP, cap |-> CAP])
    /\ slabs = (P :> <<>>) /\ objs = <<>> /\ hist = <<>> /\ last = <<>>

LogOp(op) == hist' = Append(hist, op) /\ last' = op

LowFree(s) ==
    IF s \in DOMAIN slabs[P]
    THEN CHOOSE o \in 0..(CAP - 1) : o \notin slabs[P][s].busy
           /\ \A q \in 0..(CAP - 1) : q < o => q \in slabs[P][s].busy
    ELSE 0

DoAlloc ==
    /\ \/ \E s \in 1..NSLABS :
             (s \in DOMAIN slabs[P] => NFree(P, s) > 0)
             /\ Alloc(P, s, LowFree(s), NewH)
       \/ NoRoom(P) /\ SlabCount(P) = NSLABS /\ UNCHANGED mpvars
    /\ LogOp(<<"alloc", 0>>)

Fill(s) == CAP - Cardinality(slabs[P][s].busy)
DoFree(s) ==
    /\ s \in DOMAIN slabs[P] /\ slabs[P][s].busy # {}
    /\ LET o == CHOOSE o \in slabs[P][s].busy :
                    \A q \in slabs[P][s].busy : o >= q
           h == CHOOSE h \in DOMAIN objs : objs[h].s = s /\ objs[h].off = o IN
       Free(h)
    /\ LogOp(<<"freeslab", Cardinality({t \in DOMAIN slabs[P] :
                              t < s /\ slabs[P][t].busy # {}})>>)

Next == DoAlloc \/ \E s \in 1..NSLABS : DoFree(s)
Spec == Init /\ [][Next]_vars

(* Handles do not matter.                                                   *)
View == <<slabs, last>>
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

------------------------------- MODULE MCLessor ------------------------------
(* Lessors next to other users of the quota, one call at a time: what the    *)
(* algorithm does (big chunks, halved while refused, then exactly what is    *)
(* needed; release above two chunks) is what Quota allows.                   *)
EXTENDS Quota, Json
CONSTANTS NT, MaxOps, Totals, Sizes
VARIABLES hist, other, last
vars == <<qvars, hist, other, last>>
T == 1..NT
IAdd(a, b) == a + b
ISub(a, b) == a - b
ILeq(a, b) == a <= b
IUnit(a) == 2 * ((a + 1) \div 2)
Max2 == 60
Init ==
    /\ total \in Totals /\ used = 0
    /\ limits = [max |-> Max2, min |-> 8]
    /\ les = [t \in T |-> [NoLessor EXCEPT !.has = TRUE]]
    /\ pend = [t \in T |-> Idle]
    /\ hist = <<<<"init", total>>>> /\ last = <<>> /\ other = 0
LogOp(op) == hist' = Append(hist, op) /\ last' = op
RECURSIVE Chunk(_, _)
Chunk(u, req) == IF Fits(u) THEN IUnit(u)
                 ELSE IF u = req THEN 0
                 ELSE Chunk(IF u \div 2 < req THEN req ELSE u \div 2, req)
Took(t, n) == IF n <= Spare(t) THEN 0
              ELSE Chunk(Bigger(8, Lacking(t, n)), Lacking(t, n))
Gave(t, n) == LET a == Spare(t) + n
              IN IF a >= 16 THEN IUnit(a - 8 - 2) ELSE 0
Busy == \E t \in T : pend[t].f # "none"
Next ==
    \/ \E t \in T : ~pend[t].done /\ pend[t].f = "lease"
            /\ Lease(t, Took(t, pend[t].n)) /\ UNCHANGED <<hist, other, last>>
    \/ \E t \in T : ~pend[t].done /\ pend[t].f = "unlease"
            /\ EndLease(t, Gave(t, pend[t].n)) /\ UNCHANGED <<hist, other, last>>
    \/ \E t \in T : Destroy(t) /\ UNCHANGED <<hist, other, last>>
    \/ \E t \in T : Set(t) /\ UNCHANGED <<hist, other, last>>
    \/ \E t \in T : Return(t) /\ UNCHANGED <<hist, other, last>>
    \/ /\ ~Busy /\ Len(hist) <= MaxOps
       /\ \/ \E t \in T, n \in Sizes : Call(t, "lease", n)
                /\ LogOp(<<"lease", t, n>>) /\ UNCHANGED other
          \/ \E t \in T, n \in Sizes : n <= les[t].leased
                /\ Call(t, "unlease", n) /\ LogOp(<<"unlease", t, n>>)
                /\ UNCHANGED other
          \/ \E t \in T : Call(t, "ldestroy", 0) /\ LogOp(<<"ldestroy", t, 0>>)
                /\ UNCHANGED other
          \/ \E n \in Totals : Call(1, "set", n) /\ LogOp(<<"set", 1, n>>)
                /\ UNCHANGED other
          \/ \E n \in {2, 6, 14} : Fits(n) /\ used' = used + n /\ other' = other + n
                /\ LogOp(<<"use", 1, n>>)
                /\ UNCHANGED <<total, limits, les, pend>>
          \/ /\ other > 0 /\ used' = used - other /\ other' = 0
             /\ LogOp(<<"release", 1, other>>)
             /\ UNCHANGED <<total, limits, les, pend>>
Spec == Init /\ [][Next]_vars
Sum == used = other + AddAll(les, T)
(* The algorithm is never stuck: an operation that was called takes effect.  *)
Works == \A t \in T : pend[t].f # "none" /\ ~pend[t].done =>
            ENABLED (\/ Lease(t, Took(t, pend[t].n))
                     \/ EndLease(t, Gave(t, pend[t].n))
                     \/ Destroy(t) \/ Set(t))
View == <<qvars, other, last>>
Emit == ~Busy => PrintT(<<"SCRIPT", ToJson(hist)>>)
==============================================================================

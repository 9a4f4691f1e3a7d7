-------------------------------- MODULE Arena --------------------------------
(* Arenas that share a quota and are used by several threads.  Obtaining a   *)
(* slab is not one step: a returned slab is taken when there is one, else    *)
(* the quota is charged, else there is nothing to give; then memory is found *)
(* or the charge is taken back.  Sizes are in KB.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    total, used,   \* the quota
    ar,            \* arena -> [slab, pre, made, cache]: size of a slab, how
                   \* many are preallocated, were ever made, are returned
    slabs,         \* slab -> [a, pg, out]: arena, place, somebody has it
    pend           \* thread -> operation: [f, a, s, at, r]

avars == <<total, used, ar, slabs, pend>>
Idle == [f |-> "none", a |-> 1, s |-> 0, at |-> "start", r |-> 0]
NoArena == [slab |-> 0, pre |-> 0, made |-> 0, cache |-> <<>>]
Known == DOMAIN slabs
Call(t, f, a, s) ==
    /\ pend[t].f = "none"
    /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.f = f, !.a = a, !.s = s]]
    /\ slabs' = IF f = "unmap" THEN [slabs EXCEPT ![s].out = FALSE] ELSE slabs
    /\ UNCHANGED <<total, used, ar>>
Takes(t, f, at) == pend[t].f = f /\ pend[t].at = at
Done(t, r) == pend' = [pend EXCEPT ![t].at = "done", ![t].r = r]
On(t, at) == pend' = [pend EXCEPT ![t].at = at]

MapCached(t) ==
    LET a == pend[t].a IN
    /\ Takes(t, "map", "start")
    /\ IF ar[a].cache # <<>>
       THEN /\ Done(t, Head(ar[a].cache))
            /\ ar' = [ar EXCEPT ![a].cache = Tail(@)]
       ELSE On(t, "charge") /\ UNCHANGED ar
    /\ UNCHANGED <<total, used, slabs>>
MapCharge(t) ==
    LET a == pend[t].a IN
    /\ Takes(t, "map", "charge")
    /\ IF used + ar[a].slab <= total
       THEN /\ used' = used + ar[a].slab /\ On(t, "make")
            /\ ar' = [ar EXCEPT ![a].made = @ + 1]
       ELSE Done(t, 0) /\ UNCHANGED <<used, ar>>
    /\ UNCHANGED <<total, slabs>>
(* A new slab, or no memory: only for a slab that was not preallocated.      *)
MapMake(t, s) ==
    /\ Takes(t, "map", "make") /\ s \notin Known /\ s # 0
    /\ Done(t, s) /\ UNCHANGED <<total, used, ar, slabs>>
MapFail(t) ==
    LET a == pend[t].a IN
    /\ Takes(t, "map", "make") /\ ar[a].made > ar[a].pre
    /\ used' = used - ar[a].slab /\ ar' = [ar EXCEPT ![a].made = @ - 1]
    /\ Done(t, 0) /\ UNCHANGED <<total, slabs>>
Unmap(t) ==
    /\ Takes(t, "unmap", "start")
    /\ ar' = [ar EXCEPT ![pend[t].a].cache = <<pend[t].s>> \o @]
    /\ Done(t, 0) /\ UNCHANGED <<total, used, slabs>>
Look(t) == /\ Takes(t, "qused", "start") /\ Done(t, used)
           /\ UNCHANGED <<total, used, ar, slabs>>
QUse(t) ==
    LET n == pend[t].s IN
    /\ Takes(t, "quse", "start")
    /\ IF used + n <= total THEN used' = used + n /\ Done(t, 1)
       ELSE Done(t, 0) /\ UNCHANGED used
    /\ UNCHANGED <<total, ar, slabs>>
QFree(t) ==
    /\ Takes(t, "qfree", "start") /\ used' = used - pend[t].s /\ Done(t, 0)
    /\ UNCHANGED <<total, ar, slabs>>
Effect(t) == \/ MapCached(t) \/ MapCharge(t) \/ MapFail(t)
             \/ Unmap(t) \/ Look(t) \/ QUse(t) \/ QFree(t)
(* pg: where a slab that was not known is.                                   *)
Return(t, pg) ==
    LET s == pend[t].r IN
    /\ pend[t].at = "done" /\ pend' = [pend EXCEPT ![t] = Idle]
    /\ slabs' = IF pend[t].f # "map" \/ s = 0 THEN slabs
                ELSE IF s \in Known THEN [slabs EXCEPT ![s].out = TRUE]
                ELSE slabs @@ (s :> [a |-> pend[t].a, pg |-> pg, out |-> TRUE])
    /\ UNCHANGED <<total, used, ar>>

RoundSlab(n) == IF n <= 64 * 1024 THEN 64
                ELSE CHOOSE k \in {2 ^ i : i \in 6..20} :
                        k * 1024 >= n /\ (k = 64 \/ (k \div 2) * 1024 < n)
RoundPre(n, slab) == LET m == IF n < total THEN n ELSE total
                     IN (m + slab - 1) \div slab
Create(a, pre, slab) ==
    /\ ar[a].slab = 0
    /\ \E s \in {RoundSlab(slab)} :
        ar' = [ar EXCEPT ![a] = [NoArena EXCEPT !.slab = s,
                                                !.pre = RoundPre(pre, s)]]
    /\ UNCHANGED <<total, used, slabs, pend>>
(* Memory of an arena in pages of 4 KB.                                      *)
Pages(a) == ((IF ar[a].made > ar[a].pre THEN ar[a].made ELSE ar[a].pre)
             * ar[a].slab) \div 4
Destroy(a) ==
    /\ ar' = [ar EXCEPT ![a] = NoArena]
    /\ slabs' = [s \in {s \in Known : slabs[s].a # a} |-> slabs[s]]
    /\ UNCHANGED <<total, used, pend>>

Apart(p, n, q, m) == p + n <= q \/ q + m <= p
AInv ==
    /\ used <= total
    /\ \A s, u \in Known : s # u =>
        Apart(slabs[s].pg, ar[slabs[s].a].slab \div 4,
              slabs[u].pg, ar[slabs[u].a].slab \div 4)
    /\ \A a \in DOMAIN ar : \A i \in 1..Len(ar[a].cache) :
        ~slabs[ar[a].cache[i]].out
==============================================================================

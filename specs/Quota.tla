-------------------------------- MODULE Quota --------------------------------
(* A limit shared by threads, and lessors: a lessor belongs to one thread,   *)
(* takes from the quota in big chunks and leases to its user by the byte.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Zero, Add(_, _), Sub(_, _), Leq(_, _),   \* arithmetic
    Unit(_)                                  \* rounded up to the quota's unit
VARIABLES
    total, used,   \* the limit and what is taken
    limits,        \* [max: the largest limit, min: what a lessor takes]
    les,           \* thread -> its lessor: [has, held, leased]
    pend           \* thread -> its operation: [f, n, done, ok, r, m]

qvars == <<total, used, limits, les, pend>>
Bigger(a, b) == IF Leq(a, b) THEN b ELSE a
Idle == [f |-> "none", n |-> Zero, done |-> FALSE, ok |-> 1, r |-> Zero,
         m |-> Zero]
NoLessor == [has |-> FALSE, held |-> Zero, leased |-> Zero]

Call(t, f, n) ==
    /\ pend[t].f = "none"
    /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.f = f, !.n = n]]
    /\ UNCHANGED <<total, used, limits, les>>
Done(t, ok, r, m) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].ok = ok,
                                          ![t].r = r, ![t].m = m]
Takes(t, f) == pend[t].f = f /\ ~pend[t].done
Fits(n) == Leq(n, limits.max) /\ Leq(Add(used, Unit(n)), total)

Use(t) ==
    LET n == pend[t].n IN
    /\ Takes(t, "use")
    /\ IF Fits(n)
       THEN used' = Add(used, Unit(n)) /\ Done(t, 1, Unit(n), Zero)
       ELSE UNCHANGED used /\ Done(t, 0, Zero, Zero)
    /\ UNCHANGED <<total, limits, les>>
Release(t) ==
    LET n == pend[t].n IN
    /\ Takes(t, "release") /\ Leq(Unit(n), used)
    /\ used' = Sub(used, Unit(n)) /\ Done(t, 1, Unit(n), Zero)
    /\ UNCHANGED <<total, limits, les>>
Set(t) ==
    LET n == Unit(pend[t].n) IN
    /\ Takes(t, "set")
    /\ IF Leq(used, n) THEN total' = n /\ Done(t, 1, n, Zero)
       ELSE UNCHANGED total /\ Done(t, 0, Zero, Zero)
    /\ UNCHANGED <<used, limits, les>>
Look(t) ==
    /\ \/ Takes(t, "used") /\ Done(t, 1, used, Zero)
       \/ Takes(t, "total") /\ Done(t, 1, total, Zero)
       \/ Takes(t, "both") /\ Done(t, 1, total, used)
    /\ UNCHANGED <<total, used, limits, les>>

Spare(t) == Sub(les[t].held, les[t].leased)
Lacking(t, n) == Sub(n, Spare(t))
(* What the lessor takes from the quota covers what lacks and is no more     *)
(* than one chunk when that is enough.                                       *)
Lease(t, took) ==
    LET n == pend[t].n  e == les[t] IN
    /\ Takes(t, "lease") /\ e.has
    /\ IF Leq(n, Spare(t))
       THEN /\ took = Zero /\ Done(t, 1, n, Zero)
            /\ les' = [les EXCEPT ![t].leased = Add(@, n)] /\ UNCHANGED used
       ELSE IF Fits(Lacking(t, n))
       THEN /\ Leq(Lacking(t, n), took) /\ Unit(took) = took
            /\ Leq(took, Bigger(limits.min, Unit(Lacking(t, n))))
            /\ Leq(Add(used, took), total)
            /\ used' = Add(used, took) /\ Done(t, 1, n, Zero)
            /\ les' = [les EXCEPT ![t].leased = Add(@, n),
                                  ![t].held = Add(@, took)]
       ELSE /\ took = Zero /\ Done(t, 0, Zero, Zero) /\ UNCHANGED <<les, used>>
    /\ UNCHANGED <<total, limits>>
(* Little is kept: less than two chunks.  Small amounts are not given back.  *)
EndLease(t, gave) ==
    LET n == pend[t].n  e == les[t]
        spare == Add(Spare(t), n) IN
    /\ Takes(t, "unlease") /\ e.has /\ Leq(n, e.leased)
    /\ Leq(gave, spare) /\ Unit(gave) = gave
    /\ ~Leq(Add(limits.min, limits.min), Sub(spare, gave))
    /\ Leq(spare, limits.min) => gave = Zero
    /\ les' = [les EXCEPT ![t].leased = Sub(@, n), ![t].held = Sub(@, gave)]
    /\ used' = Sub(used, gave)
    /\ Done(t, 1, n, Zero) /\ UNCHANGED <<total, limits>>
Destroy(t) ==
    /\ Takes(t, "ldestroy")
    /\ used' = Sub(used, les[t].held) /\ Done(t, 1, Zero, Zero)
    /\ les' = [les EXCEPT ![t].held = Zero, ![t].leased = Zero]
    /\ UNCHANGED <<total, limits>>
Create(t) ==
    /\ les[t].held = Zero
    /\ les' = [les EXCEPT ![t] = [NoLessor EXCEPT !.has = TRUE]]
    /\ UNCHANGED <<total, used, limits, pend>>

Effect(t) == Use(t) \/ Release(t) \/ Set(t) \/ Look(t) \/ Destroy(t)
Return(t) == /\ pend[t].done /\ pend' = [pend EXCEPT ![t] = Idle]
             /\ UNCHANGED <<total, used, limits, les>>

RECURSIVE AddAll(_, _)
AddAll(f, S) == IF S = {} THEN Zero
                ELSE LET x == CHOOSE x \in S : TRUE
                     IN Add(f[x].held, AddAll(f, S \ {x}))
QInv == /\ Leq(used, total)
        /\ Leq(AddAll(les, DOMAIN les), used)
        /\ \A t \in DOMAIN les : Leq(les[t].leased, les[t].held)
==============================================================================

------------------------------ MODULE Mempool ------------------------------
(***************************************************************************)
(* Pools of equally sized objects on top of a slab cache.  Slabs are named  *)
(* by their address order (greater number = greater address).  A slab of a  *)
(* pool is                                                                  *)
(*   full  - no free object;                                                *)
(*   cold  - it became non-full by a free, but less than 1/ColdDiv of it is *)
(*           free, so allocation leaves it alone as long as it can;         *)
(*   hot   - allocation uses the hot slab with the smallest address;        *)
(*   spare - empty and retained; not more than one in a pool.               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, Sequences, TLC

CONSTANT ColdDiv

VARIABLES
    pools,     \* pool -> [objsize, slabsize, cap]
    slabs,     \* pool -> (slab -> [busy: set of offsets,
               \*                    runs: set of <<offset, count>>: that
               \*                    many neighbours allocated in a row,
               \*                    st: status])
    objs       \* handle -> [p, s, off]: objects handed out

mpvars == <<pools, slabs, objs>>

Threshold(p) == pools[p].cap \div ColdDiv
InRuns(rec) == LET N(r) == r[2] IN MapThenSumSet(N, rec.runs)
Used(rec) == Cardinality(rec.busy) + InRuns(rec)
NFree(p, s) == pools[p].cap - Used(slabs[p][s])
OfStatus(p, st) == {s \in DOMAIN slabs[p] : slabs[p][s].st = st}
Hot(p) == OfStatus(p, "hot")
Cold(p) == OfStatus(p, "cold")
Spare(p) == OfStatus(p, "spare")
HotSlab(p) == CHOOSE s \in Hot(p) : \A t \in Hot(p) : s <= t

LiveOf(p) == {h \in DOMAIN objs : objs[h].p = p}
Count(p) == LET F(s) == InRuns(slabs[p][s]) IN
            Cardinality(LiveOf(p)) + MapThenSumSet(F, DOMAIN slabs[p])
SlabCount(p) == Cardinality(DOMAIN slabs[p])
PoolTotal(p) == SlabCount(p) * pools[p].slabsize
AllTotal == LET F(p) == PoolTotal(p) IN MapThenSumSet(F, DOMAIN pools)

Create(p, objsize, slabsize, cap) ==
    /\ p \notin DOMAIN pools
    /\ pools' = pools @@ (p :> [objsize |-> objsize, slabsize |-> slabsize,
                                cap |-> cap])
    /\ slabs' = slabs @@ (p :> <<>>)
    /\ UNCHANGED objs

Destroy(p) ==
    /\ p \in DOMAIN pools
    /\ pools' = [q \in DOMAIN pools \ {p} |-> pools[q]]
    /\ slabs' = [q \in DOMAIN slabs \ {p} |-> slabs[q]]
    /\ objs' = [h \in DOMAIN objs \ LiveOf(p) |-> objs[h]]

(* The place belongs to no live object and lies inside its slab.            *)
PlaceSafe(p, s, off) ==
    /\ off >= 0 /\ off + pools[p].objsize <= pools[p].slabsize
    /\ s \in DOMAIN slabs[p] =>
        \A o \in slabs[p][s].busy :
            off + pools[p].objsize <= o \/ o + pools[p].objsize <= off
    /\ s \in DOMAIN slabs[p] =>
        \A r \in slabs[p][s].runs :
            \/ off + pools[p].objsize <= r[1]
            \/ r[1] + r[2] * pools[p].objsize <= off
    /\ \A q \in DOMAIN slabs : q # p => s \notin DOMAIN slabs[q]

(* Which slab has to serve the allocation.                                  *)
SlabPolicy(p, s) ==
    IF Hot(p) # {} THEN s = HotSlab(p)
    ELSE IF Spare(p) # {} THEN s \in Spare(p)
    ELSE s \notin DOMAIN slabs[p] \/ s \in Cold(p)

AllocEffect(p, s, off, h) ==
    /\ LET old == IF s \in DOMAIN slabs[p] THEN slabs[p][s]
                  ELSE [busy |-> {}, runs |-> {}, st |-> "hot"]
           new == [old EXCEPT !.busy = @ \cup {off}]
           st == IF Used(new) = pools[p].cap THEN "full" ELSE "hot" IN
       slabs' = [slabs EXCEPT ![p] = (s :> [new EXCEPT !.st = st]) @@ @]
    /\ objs' = objs @@ (h :> [p |-> p, s |-> s, off |-> off])
    /\ UNCHANGED pools

Alloc(p, s, off, h) ==
    /\ h \notin DOMAIN objs
    /\ PlaceSafe(p, s, off)
    /\ SlabPolicy(p, s)
    /\ AllocEffect(p, s, off, h)

(* Every object of the pool is in use: only then an allocation may fail.    *)
NoRoom(p) == \A s \in DOMAIN slabs[p] : NFree(p, s) = 0

Drop(f, s) == [x \in DOMAIN f \ {s} |-> f[x]]

Empty == [busy |-> {}, runs |-> {}, st |-> "spare"]

(* The slabs f of a pool after objects of slab s were freed; rec is what is  *)
(* left of it.                                                               *)
AfterFree(f, cap, s, rec) ==
    LET rest == Drop(f, s)
        spare == {t \in DOMAIN f : f[t].st = "spare"} IN
    IF Used(rec) = 0
    THEN \* Retain the empty slab with the smallest address.
         IF spare = {} THEN (s :> Empty) @@ rest
         ELSE LET t == CHOOSE t \in spare : TRUE IN
              IF t > s THEN (s :> Empty) @@ Drop(rest, t) ELSE rest
    ELSE (s :> [rec EXCEPT !.st =
                  IF f[s].st = "hot" \/ cap - Used(rec) >= cap \div ColdDiv
                  THEN "hot" ELSE "cold"]) @@ rest

Free(h) ==
    /\ h \in DOMAIN objs
    /\ LET p == objs[h].p
           s == objs[h].s IN
       slabs' = [slabs EXCEPT ![p] =
          AfterFree(@, pools[p].cap, s,
                    [@[s] EXCEPT !.busy = @ \ {objs[h].off}])]
    /\ objs' = [x \in DOMAIN objs \ {h} |-> objs[x]]
    /\ UNCHANGED pools

(* Many allocations in a row, given as runs <<slab, offset, count>> in the   *)
(* order in which they were served; f is the slabs of the pool before.       *)
RunAllowed(p, f, r) ==
    LET s == r[1]
        hot == {t \in DOMAIN f : f[t].st = "hot"}
        spare == {t \in DOMAIN f : f[t].st = "spare"} IN
    /\ IF hot # {} THEN s \in hot /\ \A t \in hot : s <= t
       ELSE IF spare # {} THEN s \in spare
       ELSE s \notin DOMAIN f \/ f[s].st = "cold"
RunSafe(p, f, r) ==
    LET s == r[1]
        lo == r[2]
        sz == pools[p].objsize
        hi == lo + r[3] * sz IN
    /\ lo >= 0 /\ hi <= pools[p].slabsize /\ r[3] > 0
    /\ s \in DOMAIN f =>
          /\ \A o \in f[s].busy : hi <= o \/ o + sz <= lo
          /\ \A q \in f[s].runs : hi <= q[1] \/ q[1] + q[2] * sz <= lo
          /\ Used(f[s]) + r[3] <= pools[p].cap
    /\ r[3] <= pools[p].cap
    /\ \A q \in DOMAIN slabs : q # p => s \notin DOMAIN slabs[q]
(* Neighbouring runs are one.                                                *)
Join(runs, sz, lo, n) ==
    LET left == {r \in runs : r[1] + r[2] * sz = lo}
        right == {r \in runs : r[1] = lo + n * sz}
        start == IF left = {} THEN lo ELSE (CHOOSE r \in left : TRUE)[1]
        N(r) == r[2] IN
    (runs \ (left \cup right))
        \cup {<<start, n + MapThenSumSet(N, left) + MapThenSumSet(N, right)>>}
RunEffect(p, f, r) ==
    LET s == r[1]
        old == IF s \in DOMAIN f THEN f[s]
               ELSE [busy |-> {}, runs |-> {}, st |-> "hot"]
        new == [old EXCEPT
                  !.runs = Join(@, pools[p].objsize, r[2], r[3])] IN
    (s :> [new EXCEPT !.st = IF Used(new) = pools[p].cap THEN "full"
                             ELSE "hot"]) @@ f
RECURSIVE RunsSafe(_, _, _), RunsAllowed(_, _, _), RunsEffect(_, _, _)
RunsSafe(p, f, q) ==
    q # <<>> => RunSafe(p, f, Head(q))
                /\ RunsSafe(p, RunEffect(p, f, Head(q)), Tail(q))
RunsAllowed(p, f, q) ==
    q # <<>> => RunAllowed(p, f, Head(q))
                /\ RunsAllowed(p, RunEffect(p, f, Head(q)), Tail(q))
RunsEffect(p, f, q) ==
    IF q = <<>> THEN f ELSE RunsEffect(p, RunEffect(p, f, Head(q)), Tail(q))

(* And frees: each <<slab, offset, count>> is a part of one run.             *)
Cut(runs, sz, lo, n) ==
    LET r == CHOOSE r \in runs : r[1] <= lo /\ lo + n * sz <= r[1] + r[2] * sz
        before == (lo - r[1]) \div sz
        after == r[2] - before - n IN
    (runs \ {r}) \cup (IF before > 0 THEN {<<r[1], before>>} ELSE {})
                 \cup (IF after > 0 THEN {<<lo + n * sz, after>>} ELSE {})
RECURSIVE FreesEffect(_, _, _)
FreesEffect(p, f, q) ==
    IF q = <<>> THEN f
    ELSE LET r == Head(q) IN
         FreesEffect(p, AfterFree(f, pools[p].cap, r[1],
             [f[r[1]] EXCEPT !.runs = Cut(@, pools[p].objsize, r[2], r[3])]),
             Tail(q))

AllocRuns(p, q) ==
    /\ slabs' = [slabs EXCEPT ![p] = RunsEffect(p, @, q)]
    /\ UNCHANGED <<pools, objs>>
FreeRuns(p, q) ==
    /\ slabs' = [slabs EXCEPT ![p] = FreesEffect(p, @, q)]
    /\ UNCHANGED <<pools, objs>>

-----------------------------------------------------------------------------
ObjDisjoint ==
    \A x, y \in DOMAIN objs :
        x # y /\ objs[x].s = objs[y].s =>
            LET sz == pools[objs[x].p].objsize IN
            objs[x].off + sz <= objs[y].off \/ objs[y].off + sz <= objs[x].off
BusyAgrees ==
    \A p \in DOMAIN pools : \A s \in DOMAIN slabs[p] :
        slabs[p][s].busy = {objs[h].off : h \in {g \in LiveOf(p) : objs[g].s = s}}
StatusOk ==
    \A p \in DOMAIN pools :
        /\ Cardinality(Spare(p)) <= 1
        /\ \A s \in DOMAIN slabs[p] :
            /\ slabs[p][s].st = "full" <=> NFree(p, s) = 0
            /\ slabs[p][s].st = "spare" <=> Used(slabs[p][s]) = 0
            /\ slabs[p][s].st = "cold" => NFree(p, s) < Threshold(p)
SlabsOwned ==
    \A p, q \in DOMAIN pools :
        p # q => DOMAIN slabs[p] \cap DOMAIN slabs[q] = {}
FreedAll ==
    \A p \in DOMAIN pools : Count(p) = 0 => SlabCount(p) <= 1

MempoolInv == ObjDisjoint /\ BusyAgrees /\ StatusOk /\ SlabsOwned /\ FreedAll
=============================================================================

------------------------------ MODULE Lsregion ------------------------------
(***************************************************************************)
(* Log structured regions: a sequence of slabs (oldest first), each with     *)
(* data of non-decreasing ids.  Allocation appends to the newest slab or to  *)
(* a new one; collection drops slabs from the oldest end.  One collected     *)
(* slab of the regular size is kept for reuse.  Flushing hands out the not   *)
(* yet flushed part of each slab, oldest first.                             *)
(* A checked build is a region with one slab per allocation and no reuse.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

VARIABLES
    ls,        \* sequence of [sz, used, max, at, fl]: fl[k] = flushed by k
    cached,    \* number of regular slabs kept for reuse: 0 or 1
    resv,      \* <<>> or <<size>>: promised to the next allocation
    live,      \* handle -> [s: slab number from the beginning, z, off, size, id]
    gone,      \* number of slabs dropped so far
    geo        \* [slab: regular slab size, hdr: header size, checked]

lsvars == <<ls, cached, resv, live, gone, geo>>

NoId == -1
RECURSIVE SumUsed(_)
SumUsed(q) == IF q = <<>> THEN 0 ELSE Head(q).used + SumUsed(Tail(q))
RECURSIVE SumSz(_)
SumSz(q) == IF q = <<>> THEN 0 ELSE Head(q).sz + SumSz(Tail(q))

Used == SumUsed(ls)
Total == IF geo.checked THEN Used ELSE SumSz(ls) + cached * geo.slab
MaxId == LET ids == {ls[i].max : i \in 1..Len(ls)} \cup {NoId} IN
         CHOOSE m \in ids : \A i \in ids : i <= m

Newest == ls[Len(ls)]
Unused == IF ls = <<>> \/ geo.checked THEN -1
          ELSE Newest.sz - geo.hdr - Newest.used
(* A large request has a slab of its own size.                              *)
IsLarge(n) == n + geo.hdr > geo.slab
NewSize(n) == IF IsLarge(n) THEN n + geo.hdr ELSE geo.slab

Slab(sz, nsvp) == [sz |-> sz, used |-> 0, max |-> NoId, at |-> <<>>,
                   fl |-> [k \in 1..nsvp |-> 0]]

Apart(z1, o1, n1, z2, o2, n2) ==
    z1 # z2 \/ n1 = 0 \/ n2 = 0 \/ o1 + n1 <= o2 \/ o2 + n2 <= o1
PlaceFree(z, off, n) ==
    \A h \in DOMAIN live :
        Apart(z, off, n, live[h].z, live[h].off, live[h].size)

(* Room for n bytes, alignment included: a new slab if they do not fit.     *)
Room(n, fits, nsvp) ==
    IF fits THEN <<ls, cached>>
    ELSE <<Append(ls, Slab(NewSize(n), nsvp)),
           IF ~IsLarge(n) /\ cached = 1 THEN 0 ELSE cached>>

(* start: where the first byte of the newest slab is.                       *)
Reserve(n, need, fits, nsvp, start) ==
    /\ LET r == Room(need, fits, nsvp)  q == r[1]  k == Len(q) IN
       /\ ls' = [q EXCEPT ![k].at = IF @ = <<>> THEN start ELSE @]
       /\ cached' = r[2]
    /\ resv' = <<n>>
    /\ UNCHANGED <<live, gone, geo>>

(* eff: with padding.                                                       *)
Alloc(h, z, off, size, eff, need, id, fits, nsvp) ==
    /\ id >= MaxId
    /\ LET r == Room(need, fits, nsvp)  q == r[1]  n == Len(q) IN
       /\ ls' = [q EXCEPT ![n].used = @ + eff, ![n].max = id,
                          ![n].at = IF @ = <<>> THEN <<z, off - (eff - size)>>
                                    ELSE @]
       /\ cached' = r[2]
       /\ live' = live @@ (h :> [s |-> gone + n, z |-> z, off |-> off,
                                 size |-> size, id |-> id])
    /\ resv' = <<>>
    /\ UNCHANGED <<gone, geo>>

(* How many slabs from the oldest end have nothing younger than id.         *)
RECURSIVE Collectable(_, _)
Collectable(q, id) ==
    IF q = <<>> \/ Head(q).max > id THEN 0 ELSE 1 + Collectable(Tail(q), id)

Gc(id) ==
    LET n == Collectable(ls, id)
        keeps == ~geo.checked /\
                 \E i \in 1..n : ls[i].sz <= geo.slab IN
    /\ ls' = SubSeq(ls, n + 1, Len(ls))
    /\ cached' = IF keeps THEN 1 ELSE cached
    /\ gone' = gone + n
    /\ live' = [h \in {g \in DOMAIN live : live[g].s > gone + n} |-> live[h]]
    \* A reservation lives in the newest slab.
    /\ resv' = IF n = Len(ls) THEN <<>> ELSE resv
    /\ UNCHANGED geo

(* The slabs that have something to flush for savepoint k.                  *)
Pending(k) == {i \in 1..Len(ls) : ls[i].used > ls[i].fl[k]}
(* The first max of them, in order.                                         *)
Flushed(k, max) ==
    LET p == Pending(k) IN
    {i \in p : Cardinality({j \in p : j <= i}) <= max}
Vector(k, i) == [at |-> <<ls[i].at[1], ls[i].at[2] + ls[i].fl[k]>>,
                 len |-> ls[i].used - ls[i].fl[k]]
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN
                   <<m>> \o Ordered(S \ {m})
Vectors(k, max) == LET o == Ordered(Flushed(k, max)) IN
                   [i \in 1..Len(o) |-> Vector(k, o[i])]
FlushedId(k, max) ==
    LET f == Flushed(k, max) IN
    IF f = {} THEN NoId ELSE ls[CHOOSE i \in f : \A j \in f : j <= i].max
Flush(k, max) ==
    /\ ls' = [i \in 1..Len(ls) |->
                IF i \in Flushed(k, max) THEN [ls[i] EXCEPT !.fl[k] = ls[i].used]
                ELSE ls[i]]
    /\ UNCHANGED <<cached, resv, live, gone, geo>>

-----------------------------------------------------------------------------
LsInv ==
    /\ \A g, h \in DOMAIN live : g # h =>
        Apart(live[g].z, live[g].off, live[g].size,
              live[h].z, live[h].off, live[h].size)
    /\ \A h \in DOMAIN live : live[h].s \in (gone + 1)..(gone + Len(ls))
    /\ \A i \in 1..Len(ls) :
        /\ ~geo.checked => ls[i].used <= ls[i].sz - geo.hdr
        /\ ls[i].used = 0 <=> ls[i].max = NoId
        /\ \A k \in DOMAIN ls[i].fl : ls[i].fl[k] <= ls[i].used
        /\ \A j \in 1..i : ls[j].max <= ls[i].max \/ ls[i].max = NoId
        \* Flushed in order: nothing before a flushed byte is pending.
        /\ \A j \in 1..(i - 1) : \A k \in DOMAIN ls[i].fl :
            ls[i].fl[k] > 0 => ls[j].fl[k] = ls[j].used
=============================================================================

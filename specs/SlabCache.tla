------------------------------ MODULE SlabCache ------------------------------
(***************************************************************************)
(* A slab cache: buddy-system allocation of power-of-two blocks out of the  *)
(* equally sized slabs of an arena, plus "large" blocks that bypass the     *)
(* buddy system and are billed to the quota one by one.                     *)
(*                                                                          *)
(* A slab that has no live block in it is anonymous (`spare' counts those): *)
(* nobody can tell one whole free slab from another.  A slab with at least  *)
(* one live block is identified by the number given to its base address.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, Sequences, TLC

VARIABLES
    cfg,      \* [slab, order0, omax, hdr]: geometry
    live,     \* handle -> [s, off, o]: blocks handed out
    free,     \* set of [s, off, o]: maximal free buddies of used slabs
    spare,    \* number of wholly free slabs retained by the cache
    big,      \* handle -> size: large blocks
    mapped,   \* number of slabs the arena has ever taken from the OS
    quota     \* limit in units of Unit bytes

scvars == <<cfg, live, free, spare, big, mapped, quota>>

Unit == 1024
Pow2(n) == 2 ^ n
Size(o) == cfg.order0 * Pow2(o)
Img(f) == {f[x] : x \in DOMAIN f}

SumOver(S, f(_)) == MapThenSumSet(f, S)

Units(n) == (n + Unit - 1) \div Unit

(* Slabs with a live block in them.                                         *)
Busy == {b.s : b \in Img(live)}
Held == Cardinality(Busy) + spare

BigBytes == LET F(h) == big[h] IN SumOver(DOMAIN big, F)
BigUnits == LET F(h) == Units(big[h]) IN SumOver(DOMAIN big, F)

(* Quota accounting: the arena never gives a slab back to the OS.           *)
QuotaUsed == mapped * (cfg.slab \div Unit) + BigUnits

(* Cache accounting.                                                        *)
UsedAt(o) == Cardinality({h \in DOMAIN live : live[h].o = o}) * Size(o)
TotalAt(o) == UsedAt(o) + Cardinality({f \in free : f.o = o}) * Size(o)
              + (IF o = cfg.omax THEN spare * Size(o) ELSE 0)
LiveBytes == LET F(h) == Size(live[h].o) IN SumOver(DOMAIN live, F)
Used == LiveBytes + BigBytes
Total == Held * cfg.slab + BigBytes

(* The order needed for `size' user bytes, or omax + 1 for a large block.   *)
OrderOf(size) ==
    LET n == size + cfg.hdr IN
    IF n > cfg.slab THEN cfg.omax + 1
    ELSE CHOOSE o \in 0..cfg.omax :
             n <= Size(o) /\ (o = 0 \/ n > Size(o - 1))
RealSize(size) ==
    IF OrderOf(size) > cfg.omax THEN size + cfg.hdr ELSE Size(OrderOf(size))

Inside(s, off, o, f) ==
    s = f.s /\ f.off <= off /\ off + Size(o) <= f.off + Size(f.o)

BuddyOff(off, o) ==
    IF (off \div Size(o)) % 2 = 0 THEN off + Size(o) ELSE off - Size(o)

(* What is left of the free block f when (off, o) is carved out of it.      *)
Remainder(f, off, o) ==
    { [s |-> f.s, o |-> k,
       off |-> BuddyOff((off \div Size(k)) * Size(k), k)] : k \in o..(f.o - 1) }

Whole(s) == [s |-> s, off |-> 0, o |-> cfg.omax]

(* The free block that holds the place, if any; else the place is in a      *)
(* whole slab: either the spare one or a new one.                           *)
Host(s, off, o) == {f \in free : Inside(s, off, o, f)}

CanMap(n) == \/ Held < mapped      \* a slab waits in the arena
             \/ QuotaUsed + (cfg.slab \div Unit) <= n

-----------------------------------------------------------------------------
(* Obtaining a block of order o at (s, off).                                *)

(* Safety: the place is aligned by its size and belongs to nobody.          *)
GetSafe(s, off, o) ==
    /\ off >= 0 /\ off % Size(o) = 0 /\ off + Size(o) <= cfg.slab
    /\ s \in Busy => Host(s, off, o) # {}

(* Policy: the smallest free block that fits is used; a whole slab only if  *)
(* there is none, and the arena only if there is no whole slab either.      *)
GetPolicy(s, off, o) ==
    LET fit == {f \in free : f.o >= o} IN
    IF fit = {} THEN s \notin Busy
    ELSE \E f \in fit : Inside(s, off, o, f) /\ \A g \in fit : f.o <= g.o

GetEffect(s, off, o, h) ==
    /\ live' = live @@ (h :> [s |-> s, off |-> off, o |-> o])
    /\ IF s \in Busy
       THEN LET f == CHOOSE f \in Host(s, off, o) : TRUE IN
            /\ free' = (free \ {f}) \cup Remainder(f, off, o)
            /\ UNCHANGED <<spare, mapped>>
       ELSE /\ free' = free \cup Remainder(Whole(s), off, o)
            /\ spare' = IF spare > 0 THEN spare - 1 ELSE 0
            /\ mapped' = IF spare = 0 /\ Held = mapped THEN mapped + 1
                         ELSE mapped
    /\ UNCHANGED <<cfg, big, quota>>

GetFailOk(o) ==
    /\ {f \in free : f.o >= o} = {}
    /\ spare = 0
    /\ ~CanMap(quota)

Get(s, off, o, h) ==
    /\ h \notin DOMAIN live \cup DOMAIN big
    /\ GetSafe(s, off, o) /\ GetPolicy(s, off, o)
    /\ (s \in Busy \/ spare > 0 \/ CanMap(quota))
    /\ GetEffect(s, off, o, h)

-----------------------------------------------------------------------------
(* Returning a block: merge with free buddies as long as possible.          *)
RECURSIVE Merge(_, _)
Merge(b, F) ==          \* -> [blk, rest]
    LET y == [s |-> b.s, off |-> BuddyOff(b.off, b.o), o |-> b.o] IN
    IF b.o < cfg.omax /\ y \in F
    THEN Merge([s |-> b.s, o |-> b.o + 1,
                off |-> IF y.off < b.off THEN y.off ELSE b.off], F \ {y})
    ELSE [blk |-> b, rest |-> F]

Put(h) ==
    /\ h \in DOMAIN live
    /\ LET m == Merge(live[h], free)
           whole == m.blk.o = cfg.omax IN
       /\ free' = IF whole THEN m.rest ELSE m.rest \cup {m.blk}
       /\ spare' = IF whole THEN 1 ELSE spare    \* at most one is retained
    /\ live' = [x \in DOMAIN live \ {h} |-> live[x]]
    /\ UNCHANGED <<cfg, big, mapped, quota>>

-----------------------------------------------------------------------------
LargeFits(size) == QuotaUsed + Units(size + cfg.hdr) <= quota

GetLarge(size, h) ==
    /\ h \notin DOMAIN live \cup DOMAIN big
    /\ LargeFits(size)
    /\ big' = big @@ (h :> size + cfg.hdr)
    /\ UNCHANGED <<cfg, live, free, spare, mapped, quota>>

PutLarge(h) ==
    /\ h \in DOMAIN big
    /\ big' = [x \in DOMAIN big \ {h} |-> big[x]]
    /\ UNCHANGED <<cfg, live, free, spare, mapped, quota>>

SetQuota(q) ==
    /\ quota' = IF q >= QuotaUsed THEN q ELSE quota
    /\ UNCHANGED <<cfg, live, free, spare, big, mapped>>

-----------------------------------------------------------------------------
(* Properties of the design.                                                *)
Overlap(a, b) == /\ a.s = b.s
                 /\ a.off < b.off + Size(b.o) /\ b.off < a.off + Size(a.o)
Disjoint ==
    /\ \A x, y \in DOMAIN live : x # y => ~Overlap(live[x], live[y])
    /\ \A x \in DOMAIN live : \A f \in free : ~Overlap(live[x], f)
    /\ \A f, g \in free : f # g => ~Overlap(f, g)
Aligned == \A b \in Img(live) \cup free : b.off % Size(b.o) = 0
Complete ==    \* nothing of a busy slab is lost
    \A s \in Busy :
        LET L(b) == Size(b.o) IN
        SumOver({b \in Img(live) \cup free : b.s = s}, L) = cfg.slab
Coalesced ==   \* two free buddies never coexist
    \A f \in free : /\ f.o < cfg.omax
                    /\ [f EXCEPT !.off = BuddyOff(f.off, f.o)] \notin free
NoOrphans == \A f \in free : f.s \in Busy
SpareBound == spare \in {0, 1}
QuotaBound == QuotaUsed <= quota
Reclaimed == DOMAIN live = {} => free = {}
StatsAgree ==
    LET T(o) == TotalAt(o)
        U(o) == UsedAt(o) IN
    /\ SumOver(0..cfg.omax, T) + BigBytes = Total
    /\ SumOver(0..cfg.omax, U) + BigBytes = Used

SlabCacheInv ==
    Disjoint /\ Aligned /\ Complete /\ Coalesced /\ NoOrphans /\ SpareBound
    /\ QuotaBound /\ Reclaimed /\ StatsAgree
=============================================================================

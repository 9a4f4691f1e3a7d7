------------------------------- MODULE Region -------------------------------
(***************************************************************************)
(* Regions: stacks of bytes spread over blocks of a slab cache.  A region   *)
(* is a sequence of blocks (newest last); allocations take bytes from the   *)
(* newest block only.  Truncation drops bytes from the newest end.          *)
(* In a checked (ASAN) build a region holds one malloc per allocation and   *)
(* no blocks: `blocks' stays empty and the total is the used size.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

VARIABLES
    regs,      \* region -> [blocks, ents, resv]
               \*   blocks: sequence of [sz, used, start] (start = <<>> or <<z, off>>)
               \*   ents:   sequence of [h, before, eff, size]
               \*   resv:   <<>> or <<[z, off, size, al]>>
    live,      \* handle -> [r, z, off, size]: bytes that must stay intact
    hdr        \* bytes of a block not usable for data; -1: no blocks at all

rgvars == <<regs, live, hdr>>

Empty == [blocks |-> <<>>, ents |-> <<>>, resv |-> <<>>]
Blocked == hdr >= 0

RECURSIVE SumEff(_)
SumEff(q) == IF q = <<>> THEN 0 ELSE Head(q).eff + SumEff(Tail(q))
RECURSIVE SumSz(_)
SumSz(q) == IF q = <<>> THEN 0 ELSE Head(q).sz + SumSz(Tail(q))
RECURSIVE SumUsed(_)
SumUsed(q) == IF q = <<>> THEN 0 ELSE Head(q).used + SumUsed(Tail(q))

Used(r) == SumEff(regs[r].ents)
Total(r) == IF Blocked THEN SumSz(regs[r].blocks) ELSE Used(r)
AllTotal == LET F(r) == Total(r) IN
            IF Blocked THEN MapThenSumSet(F, DOMAIN regs) ELSE 0

Newest(r) == regs[r].blocks[Len(regs[r].blocks)]
Unused(r) == IF regs[r].blocks = <<>> THEN -1
             ELSE Newest(r).sz - hdr - Newest(r).used

(* The place overlaps nothing that is alive or reserved by another region.  *)
Apart(z1, o1, n1, z2, o2, n2) ==
    z1 # z2 \/ n1 = 0 \/ n2 = 0 \/ o1 + n1 <= o2 \/ o2 + n2 <= o1
PlaceFree(r, z, off, n) ==
    /\ \A h \in DOMAIN live :
        Apart(z, off, n, live[h].z, live[h].off, live[h].size)
    /\ \A q \in DOMAIN regs \ {r} : regs[q].resv # <<>> =>
        Apart(z, off, n, regs[q].resv[1].z, regs[q].resv[1].off,
              regs[q].resv[1].size)

(* Block bookkeeping of taking eff bytes; newsz = size of a new block or 0. *)
TakeBlocks(r, eff, newsz, start) ==
    LET bl == regs[r].blocks
        b2 == IF newsz = 0 THEN bl
              ELSE Append(bl, [sz |-> newsz, used |-> 0, start |-> <<>>])
        n == Len(b2) IN
    IF ~Blocked THEN <<>>
    ELSE [b2 EXCEPT ![n].used = @ + eff,
                    ![n].start = IF @ = <<>> THEN start ELSE @]

Alloc(r, h, z, off, size, eff, newsz) ==
    /\ regs' = [regs EXCEPT ![r] =
         [blocks |-> TakeBlocks(r, eff, newsz, <<z, off - (eff - size)>>),
          ents |-> Append(@.ents, [h |-> h, before |-> Used(r), eff |-> eff,
                                   size |-> size]),
          resv |-> <<>>]]
    /\ live' = live @@ (h :> [r |-> r, z |-> z, off |-> off, size |-> size])
    /\ UNCHANGED hdr

Reserve(r, z, off, size, al, newsz) ==
    /\ regs' = [regs EXCEPT
         ![r].blocks = IF Blocked /\ newsz > 0
                       THEN Append(@, [sz |-> newsz, used |-> 0,
                                       start |-> IF al = 1 THEN <<z, off>>
                                                 ELSE <<>>])
                       ELSE @,
         ![r].resv = <<[z |-> z, off |-> off, size |-> size, al |-> al]>>]
    /\ UNCHANGED <<live, hdr>>

RECURSIVE CutBlocks(_, _)
CutBlocks(bl, cut) ==
    IF bl = <<>> THEN <<>>
    ELSE LET n == Len(bl) IN
         IF bl[n].used > cut THEN [bl EXCEPT ![n].used = @ - cut]
         ELSE CutBlocks(SubSeq(bl, 1, n - 1), cut - bl[n].used)

(* The pieces left below the mark; the topmost one may be cut short.        *)
KeptEnts(q, to) ==
    LET kept == SelectSeq(q, LAMBDA e : e.before < to)
        n == Len(kept) IN
    IF n = 0 \/ kept[n].before + kept[n].eff <= to THEN kept
    ELSE [kept EXCEPT ![n] =
            LET pad == @.eff - @.size  left == to - @.before IN
            [@ EXCEPT !.eff = left,
                      !.size = IF left <= pad THEN 0 ELSE left - pad]]

KeepLive(r, ents) ==
    LET hs == {ents[i].h : i \in 1..Len(ents)}
        sz(h) == ents[CHOOSE i \in 1..Len(ents) : ents[i].h = h].size IN
    [h \in {g \in DOMAIN live : live[g].r # r \/ g \in hs} |->
        IF live[h].r # r THEN live[h] ELSE [live[h] EXCEPT !.size = sz(h)]]

Truncate(r, to) ==
    /\ to <= Used(r)
    /\ LET ents == KeptEnts(regs[r].ents, to) IN
       /\ regs' = [regs EXCEPT ![r] =
            [blocks |-> CutBlocks(@.blocks, Used(r) - to), ents |-> ents,
             resv |-> <<>>]]
       /\ live' = KeepLive(r, ents)
    /\ UNCHANGED hdr

Free(r) ==
    /\ regs' = [regs EXCEPT ![r] = Empty]
    /\ live' = KeepLive(r, <<>>)
    /\ UNCHANGED hdr

(* Empty, but the blocks are kept; allocation goes on in the newest one.    *)
Reset(r) ==
    /\ regs' = [regs EXCEPT ![r] =
         [blocks |-> [i \in 1..Len(@.blocks) |-> [@.blocks[i] EXCEPT !.used = 0]],
          ents |-> <<>>, resv |-> <<>>]]
    /\ live' = KeepLive(r, <<>>)
    /\ UNCHANGED hdr

-----------------------------------------------------------------------------
LiveDisjoint ==
    \A g, h \in DOMAIN live : g # h =>
        Apart(live[g].z, live[g].off, live[g].size,
              live[h].z, live[h].off, live[h].size)
BlocksAgree ==
    Blocked => \A r \in DOMAIN regs :
        /\ SumUsed(regs[r].blocks) = Used(r)
        /\ \A i \in 1..Len(regs[r].blocks) :
            regs[r].blocks[i].used <= regs[r].blocks[i].sz - hdr
EntsAgree ==
    \A r \in DOMAIN regs :
        LET q == regs[r].ents IN
        /\ \A i \in 1..Len(q) :
            /\ q[i].before = (IF i = 1 THEN 0 ELSE q[i-1].before + q[i-1].eff)
            /\ q[i].h \in DOMAIN live /\ live[q[i].h].size = q[i].size
        /\ Cardinality({h \in DOMAIN live : live[h].r = r}) = Len(q)
RegionInv == LiveDisjoint /\ BlocksAgree /\ EntsAgree
=============================================================================

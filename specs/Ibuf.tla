-------------------------------- MODULE Ibuf --------------------------------
(***************************************************************************)
(* Input buffers: a byte FIFO in one block of a slab cache.  The content q  *)
(* lies in a block of capacity cap at distance pos from its beginning.      *)
(* A request for more contiguous space than there is behind the content     *)
(* moves the content to the beginning if that makes enough room, otherwise  *)
(* into a bigger block.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Runs

VARIABLES
    bufs,      \* buffer -> [q, pos, cap, start, at]; at = address or <<>>
    hdr        \* what a block takes besides its capacity

ibvars == <<bufs, hdr>>

Used(b) == LenOf(bufs[b].q)
Unused(b) == bufs[b].cap - bufs[b].pos - Used(b)
Block(b) == IF bufs[b].at = <<>> THEN 0 ELSE bufs[b].cap + hdr
Blocks == LET F(b) == Block(b) IN MapThenSumSet(F, DOMAIN bufs)

New(start) == [q |-> <<>>, pos |-> 0, cap |-> 0, start |-> start, at |-> <<>>]

(* What a request for n contiguous bytes does.                              *)
NeedsNothing(b, n) == n <= Unused(b)
NeedsCompaction(b, n) == n > Unused(b) /\ Used(b) + n <= bufs[b].cap
NeedsGrowth(b, n) == Used(b) + n > bufs[b].cap

(* Room for n bytes behind the content; cap and at matter for growth only.  *)
Room(b, n, cap, at) ==
    IF NeedsNothing(b, n) THEN bufs[b]
    ELSE IF NeedsCompaction(b, n) THEN [bufs[b] EXCEPT !.pos = 0]
    ELSE [bufs[b] EXCEPT !.pos = 0, !.cap = cap, !.at = at]

Reserve(b, n, cap, at) ==
    /\ NeedsGrowth(b, n) => cap >= Used(b) + n
    /\ bufs' = [bufs EXCEPT ![b] = Room(b, n, cap, at)]
    /\ UNCHANGED hdr

(* The owner writes n bytes into reserved space.                            *)
Write(b, v, n) ==
    /\ n <= Unused(b)
    /\ bufs' = [bufs EXCEPT ![b].q = Join(@, <<v, n>>)]
    /\ UNCHANGED hdr

Alloc(b, v, n, cap, at) ==
    /\ NeedsGrowth(b, n) => cap >= Used(b) + n
    /\ bufs' = [bufs EXCEPT ![b] =
                  [Room(b, n, cap, at) EXCEPT !.q = Join(@, <<v, n>>)]]
    /\ UNCHANGED hdr

Eat(b, n) ==
    /\ n <= Used(b)
    /\ bufs' = [bufs EXCEPT ![b].q = DropFirst(@, n), ![b].pos = @ + n]
    /\ UNCHANGED hdr

Discard(b, n) ==
    /\ n <= Used(b)
    /\ bufs' = [bufs EXCEPT ![b].q = DropLast(@, n)]
    /\ UNCHANGED hdr

Reset(b) ==
    /\ bufs' = [bufs EXCEPT ![b].q = <<>>, ![b].pos = 0]
    /\ UNCHANGED hdr

Reinit(b) ==
    /\ bufs' = [bufs EXCEPT ![b] = New(@.start)]
    /\ UNCHANGED hdr

(* An empty buffer gives its block back; otherwise the content may move     *)
(* into a smaller block that still holds it.                                *)
Shrink(b, cap, at) ==
    /\ IF Used(b) = 0 THEN bufs' = [bufs EXCEPT ![b] = New(@.start)]
       ELSE IF at = bufs[b].at THEN UNCHANGED bufs
       ELSE /\ cap >= Used(b)
            /\ bufs' = [bufs EXCEPT ![b].pos = 0, ![b].cap = cap, ![b].at = at]
    /\ UNCHANGED hdr

-----------------------------------------------------------------------------
IbufInv ==
    \A b \in DOMAIN bufs :
        /\ Unused(b) >= 0
        /\ bufs[b].at = <<>> => bufs[b].cap = 0 /\ bufs[b].q = <<>>
        /\ Canon(bufs[b].q) = bufs[b].q
        /\ \A c \in DOMAIN bufs : b # c /\ bufs[b].at # <<>> =>
              bufs[c].at # bufs[b].at
=============================================================================

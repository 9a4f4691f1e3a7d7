------------------------------- MODULE Giant -------------------------------
(***************************************************************************)
(* Containers of bytes whose pieces may be larger than 4 GB: a region, an   *)
(* input and an output buffer, an lsregion, the slab cache, the small       *)
(* allocator (large chunks), a mempool and an arena (all of them together).   Only what all of them promise: pieces are     *)
(* disjoint, the used amount is their sum, what is held covers it.          *)
(***************************************************************************)
EXTENDS Big, FiniteSets
VARIABLES kind,     \* which container
          pieces,   \* the live pieces, oldest first
          used,     \* the used amount
          ahead,    \* lsregion: bytes not flushed yet
          kept      \* lsregion: collected pieces may still be counted
gvars == <<kind, pieces, used, ahead, kept>>

REGION == 0
IBUF == 1
OBUF == 2
LSREGION == 3
MEMPOOL == 6
ARENA == 7

GInit == kind = -1 /\ pieces = <<>> /\ used = BigZero /\ ahead = BigZero
         /\ kept = FALSE
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN BigZero
          ELSE BigAdd(Head(q).real, Sum(Tail(q)))
End(p) == BigAdd(p.a, p.n)
Apart(p, q) == BigLeq(End(p), q.a) \/ BigLeq(End(q), p.a)
(* Pieces of an input buffer move.                                           *)
Disjoint == kind = IBUF \/ \A i, j \in 1..Len(pieces) :
                              i < j => Apart(pieces[i], pieces[j])
(* Enough after one piece was added.                                         *)
NewApart == kind = IBUF \/ \A i \in 1..Len(pieces) - 1 :
                              Apart(pieces[i], pieces[Len(pieces)])

Start(k) == kind' = k /\ pieces' = <<>> /\ used' = BigZero /\ ahead' = BigZero
            /\ kept' = FALSE
(* `taken': with the padding.                                                *)
Get(p, taken) ==
    /\ pieces' = Append(pieces, [p EXCEPT !.real = taken])
    /\ used' = BigAdd(used, taken)
    /\ ahead' = BigAdd(ahead, taken)
    /\ UNCHANGED <<kind, kept>>
Only(q) ==
    /\ pieces' = q
    /\ used' = Sum(q)
    /\ UNCHANGED <<kind, ahead, kept>>
Keep(k) == Only(SubSeq(pieces, 1, k))
Drop(k) == Only(SubSeq(pieces, k + 1, Len(pieces)))
Free(h) == Only(SelectSeq(pieces, LAMBDA p : p.h # h))
(* A slab of an lsregion is collected with all that it holds.                *)
Collect(k, u) ==
    /\ pieces' = SubSeq(pieces, k + 1, Len(pieces))
    /\ used' = u
    /\ kept' = (kept \/ k > 0)
    /\ UNCHANGED <<kind, ahead>>
Flush == ahead' = BigZero /\ kept' = FALSE /\ UNCHANGED <<kind, pieces, used>>
=============================================================================

------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* All containers at once: an arena, slab caches on it, containers of every  *)
(* kind on the caches, a log-structured region on the arena.  A container is *)
(* a sequence of pieces (the oldest first); pieces are obtained at the end    *)
(* and given back from either end or anywhere, whatever the kind allows.     *)
(* What belongs to one container is no concern of the others: that is what   *)
(* is specified here, the containers themselves have specifications of      *)
(* their own.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES boxes     \* container -> its pieces
svars == <<boxes>>
Kinds == <<"raw", "region", "ibuf", "obuf", "pool", "small", "log">>
Kind(b) == Kinds[(b + 1) \div 2]
CacheOf(b) == 2 - (b % 2)
(* Those that stay where they are.                                          *)
Pieces == UNION {{boxes[b][i] : i \in 1..Len(boxes[b])} :
                 b \in {x \in DOMAIN boxes : Kind(x) # "ibuf"}}

Start(n) == boxes' = [b \in 1..n |-> <<>>]
Get(b, p) == boxes' = [boxes EXCEPT ![b] = Append(@, p)]
Only(b, q) == boxes' = [boxes EXCEPT ![b] = q]
CanDrop(b) == Kind(b) \in {"ibuf", "log"}
CanKeep(b) == Kind(b) \in {"region", "ibuf", "obuf", "log"}
CanFree(b) == Kind(b) \in {"raw", "pool", "small"}
Drop(b, k) == CanDrop(b) /\ Only(b, SubSeq(boxes[b], k + 1, Len(boxes[b])))
Keep(b, k) == CanKeep(b) /\ (Kind(b) = "log" => k = 0)
              /\ Only(b, SubSeq(boxes[b], 1, k))
Free(b, h) == CanFree(b) /\ Only(b, SelectSeq(boxes[b], LAMBDA p : p.h # h))
Again(b) == Only(b, <<>>)
(* Memory is only made ready, or given back: nothing is allocated.           *)
CanReserve(b) == CanKeep(b)
Same(b) == boxes' = boxes
(* A cache is destroyed, with all that is on it.                             *)
OfCache(c) == {b \in DOMAIN boxes : Kind(b) # "log" /\ CacheOf(b) = c}
Renew(c) == boxes' = [b \in DOMAIN boxes |->
                      IF b \in OfCache(c) THEN <<>> ELSE boxes[b]]
=============================================================================

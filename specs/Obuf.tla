-------------------------------- MODULE Obuf --------------------------------
(***************************************************************************)
(* Output buffers: a byte stream q laid out in a sequence v of blocks.       *)
(* Only the block at pos takes bytes; the blocks before it hold data, the    *)
(* ones behind it are allocated but empty.  Written bytes never move.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Runs

CONSTANT IovMax      \* no more blocks than that

VARIABLES
    ob,        \* [q, v, pos, start, resv]; v: sequence of [at, len, cap]
    svps       \* sequence of savepoints [pos, len, used]

obvars == <<ob, svps>>

New(start) == [q |-> <<>>, v |-> <<>>, pos |-> 1, start |-> start, resv |-> 0]

Size == LenOf(ob.q)
RECURSIVE SumCap(_)
SumCap(v) == IF v = <<>> THEN 0 ELSE Head(v).cap + SumCap(Tail(v))
RECURSIVE SumLen(_)
SumLen(v) == IF v = <<>> THEN 0 ELSE Head(v).len + SumLen(Tail(v))
Vectors == {i \in 1..Len(ob.v) : ob.v[i].len > 0}

Has(o, p) == p <= Len(o.v)
RoomAt(o, p) == IF Has(o, p) THEN o.v[p].cap - o.v[p].len ELSE 0
(* The block a contiguous request of n bytes goes to.                       *)
Target(o, n) ==
    IF RoomAt(o, o.pos) >= n THEN o.pos
    ELSE IF Has(o, o.pos) /\ o.v[o.pos].len > 0 THEN o.pos + 1 ELSE o.pos
NeedsBlock(o, n) == RoomAt(o, Target(o, n)) < n
(* There is a place for one.                                                *)
MayGrow(o, n) == Target(o, n) <= IovMax

(* Room for n contiguous bytes; cap and at describe a new block, which      *)
(* replaces an empty one that is too small.                                 *)
Room(o, n, cap, at) ==
    LET p == Target(o, n)
        b == [at |-> at, len |-> 0, cap |-> cap] IN
    IF ~NeedsBlock(o, n) THEN [o EXCEPT !.pos = p]
    ELSE IF Has(o, p) THEN [o EXCEPT !.pos = p, !.v[p] = b]
    ELSE [o EXCEPT !.pos = p, !.v = Append(@, b)]

Put(o, v, n) ==
    [o EXCEPT !.v[o.pos].len = @ + n, !.q = Join(@, <<v, n>>), !.resv = 0]

Reserve(n, cap, at) ==
    /\ ob.resv = 0
    /\ NeedsBlock(ob, n) => MayGrow(ob, n) /\ cap >= n
    /\ ob' = [Room(ob, n, cap, at) EXCEPT !.resv = n]
    /\ UNCHANGED svps

Alloc(v, n, cap, at) ==
    /\ ob.resv # 0 => n <= ob.resv
    /\ NeedsBlock(ob, n) => MayGrow(ob, n) /\ cap >= n
    /\ ob' = Put(Room(ob, n, cap, at), v, n)
    /\ UNCHANGED svps

(* A refused request may have left the block it could not use.              *)
Refused(n) ==
    /\ NeedsBlock(ob, n)
    /\ ob' \in {ob, [ob EXCEPT !.pos = IF MayGrow(ob, n) THEN Target(ob, n)
                                       ELSE @]}
    /\ UNCHANGED svps

(* Copying in goes through the allocated blocks; `left' bytes remain that    *)
(* need a new block (or cannot be placed at all).                           *)
RECURSIVE Fill(_, _, _)
Fill(o, v, n) ==
    LET r == RoomAt(o, o.pos) IN
    IF n <= r THEN [o |-> Put(o, v, n), left |-> 0]
    ELSE IF ~Has(o, o.pos) THEN [o |-> o, left |-> n]
    ELSE LET o1 == IF r = 0 THEN o ELSE Put(o, v, r) IN
         IF o.pos = IovMax THEN [o |-> o1, left |-> n - r]
         ELSE Fill([o1 EXCEPT !.pos = @ + 1], (v + r) % Mod, n - r)
DupNeedsBlock(v, n) ==
    LET f == Fill(ob, v, n) IN f.left > 0 /\ ~Has(f.o, f.o.pos)

Dup(v, n, cap, at) ==
    /\ ob.resv = 0
    /\ LET f == Fill(ob, v, n) IN
       IF f.left = 0 \/ Has(f.o, f.o.pos) THEN ob' = f.o
       ELSE /\ cap >= f.left
            /\ ob' = Put([f.o EXCEPT !.v = Append(@, [at |-> at, len |-> 0,
                                                     cap |-> cap])],
                         (v + n - f.left) % Mod, f.left)
    /\ UNCHANGED svps

(* No memory for the block: what fits is accepted.                          *)
DupRefused(v, n) ==
    /\ ob.resv = 0 /\ DupNeedsBlock(v, n)
    /\ ob' = Fill(ob, v, n).o
    /\ UNCHANGED svps

Svp == [pos |-> ob.pos, len |-> IF Has(ob, ob.pos) THEN ob.v[ob.pos].len ELSE 0,
        used |-> Size]
Savepoint == svps' = Append(svps, Svp) /\ UNCHANGED ob

Cut(o, s) ==
    [o EXCEPT !.v = [i \in 1..Len(o.v) |->
                       IF i < s.pos THEN o.v[i]
                       ELSE [o.v[i] EXCEPT !.len = IF i = s.pos THEN s.len
                                                   ELSE 0]],
              !.q = KeepFirst(@, s.used), !.pos = s.pos, !.resv = 0]
Rollback(k) ==
    /\ k \in 1..Len(svps)
    /\ ob' = Cut(ob, svps[k])
    /\ svps' = SubSeq(svps, 1, k)
Reset ==
    /\ ob' = Cut(ob, [pos |-> 1, len |-> 0, used |-> 0])
    /\ svps' = <<>>

-----------------------------------------------------------------------------
ObufInv ==
    /\ Len(ob.v) <= IovMax
    /\ ob.pos \in 1..(Len(ob.v) + 1)
    /\ \A i \in 1..Len(ob.v) :
        /\ ob.v[i].len <= ob.v[i].cap
        /\ i < ob.pos => ob.v[i].len > 0
        /\ i > ob.pos => ob.v[i].len = 0
        /\ \A j \in 1..Len(ob.v) : i # j => ob.v[i].at # ob.v[j].at
    /\ SumLen(ob.v) = Size
    /\ \A i \in 1..Len(svps) : svps[i].used <= Size
=============================================================================

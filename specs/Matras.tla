------------------------------- MODULE Matras -------------------------------
(***************************************************************************)
(* A matras: blocks with consecutive ids in a three level tree of extents,   *)
(* the newest version (head) and any number of read views that share        *)
(* extents with it.  Leaves hold blocks; the inner extents (root and second  *)
(* level) are known by their number only.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

VARIABLES
    head,      \* [cnt, root, l2, leaf]: block count and the extents
    views,     \* view -> the same
    order,     \* open views, the oldest first
    heap,      \* leaf -> (block number in it -> value)
    rsv,       \* extents in the touch reserve
    promise,   \* touches that must not fail
    nid,       \* inner extents created so far
    geo        \* [lc: blocks in a leaf, lp: leaves in a second level extent,
               \*  cap: leaves at most]

mvars == <<head, views, order, heap, rsv, promise, nid, geo>>

Ceil(a, b) == (a + b - 1) \div b
Empty == [cnt |-> 0, root |-> 0, l2 |-> <<>>, leaf |-> <<>>]
Rng(s) == {s[i] : i \in 1..Len(s)}
LeavesOf(v) == IF v.cnt = 0 THEN {} ELSE Rng(v.leaf)
Nodes(v) == IF v.cnt = 0 THEN {} ELSE {v.root} \cup Rng(v.l2) \cup Rng(v.leaf)
ViewNodes(vs) == UNION {Nodes(vs[k]) : k \in DOMAIN vs}
AllNodes(h, vs) == Nodes(h) \cup ViewNodes(vs)
AllLeaves(h, vs) == LeavesOf(h) \cup UNION {LeavesOf(vs[k]) : k \in DOMAIN vs}
Held == Cardinality(AllNodes(head, views))
HeldByViewsOnly == Cardinality(ViewNodes(views) \ Nodes(head))
Clean(hp, h, vs) == [l \in AllLeaves(h, vs) |-> hp[l]]

LeafOf(id) == id \div geo.lc + 1
L2Of(id) == (id \div geo.lc) \div geo.lp + 1
Read(v) == [i \in 1..v.cnt |-> heap[v.leaf[LeafOf(i - 1)]][(i - 1) % geo.lc]]

-----------------------------------------------------------------------------
(* Extents to be obtained.                                                  *)
AllocNeed ==
    (IF head.cnt = 0 THEN 1 ELSE 0)
    + (IF head.cnt % geo.lc = 0 /\ (head.cnt \div geo.lc) % geo.lp = 0 THEN 1 ELSE 0)
    + (IF head.cnt % geo.lc = 0 THEN 1 ELSE 0)
Full(n) == Ceil(head.cnt + n, geo.lc) > geo.cap

(* What a write to a block has to copy: the extents on the way to it that    *)
(* a view can see, the root first.                                          *)
MustCopy(id) == head.leaf[LeafOf(id)] \in ViewNodes(views)
Path(id) == <<head.root, head.l2[L2Of(id)], head.leaf[LeafOf(id)]>>
CopyList(id) == IF ~MustCopy(id) THEN <<>>
                ELSE SelectSeq(Path(id), LAMBDA x : x \in ViewNodes(views))
TouchNeed(id) == Len(CopyList(id))

(* The head after the first n of the copies; newleaf: number of the leaf.    *)
Copied(id, n, newleaf) ==
    LET c == {CopyList(id)[i] : i \in 1..n}
        b == L2Of(id)
        a == LeafOf(id) IN
    [cnt |-> head.cnt,
     root |-> IF head.root \in c THEN -(nid + 1) ELSE head.root,
     l2 |-> IF head.l2[b] \in c THEN [head.l2 EXCEPT ![b] = -(nid + 2)]
            ELSE head.l2,
     leaf |-> IF head.leaf[a] \in c THEN [head.leaf EXCEPT ![a] = newleaf]
              ELSE head.leaf]
CopyHeap(id, n, newleaf) ==
    LET old == head.leaf[LeafOf(id)] IN
    IF n > 0 /\ \E i \in 1..n : CopyList(id)[i] = old
    THEN (newleaf :> heap[old]) @@ heap ELSE heap

Fill(hp, leaf, from, n, v) ==
    [hp EXCEPT ![leaf] = [i \in from..(from + n - 1) |-> v] @@ @]

(* leaf: number of a new leaf if one is needed.                              *)
Alloc(n, leaf, v) ==
    LET c == head.cnt
        h == [cnt |-> c + n,
              root |-> IF c = 0 THEN -(nid + 1) ELSE head.root,
              l2 |-> IF c % geo.lc = 0 /\ (c \div geo.lc) % geo.lp = 0
                     THEN Append(head.l2, -(nid + 2)) ELSE head.l2,
              leaf |-> IF c % geo.lc = 0 THEN Append(head.leaf, leaf)
                       ELSE head.leaf]
        hp == IF c % geo.lc = 0 THEN (leaf :> <<>>) @@ heap ELSE heap IN
    /\ head' = h
    /\ heap' = Fill(hp, h.leaf[Len(h.leaf)], c % geo.lc, n, v)
    /\ nid' = nid + 2
    /\ UNCHANGED <<views, order, geo>>

(* Without the last blocks: the leaf they were in has been copied.           *)
Cut(h, n) ==
    LET c == h.cnt - n IN
    IF c = 0 THEN Empty
    ELSE [cnt |-> c, root |-> h.root,
          l2 |-> SubSeq(h.l2, 1, Ceil(Ceil(c, geo.lc), geo.lp)),
          leaf |-> SubSeq(h.leaf, 1, Ceil(c, geo.lc))]
Dealloc(n, newleaf) ==
    LET id == head.cnt - n
        h == Cut(Copied(id, TouchNeed(id), newleaf), n) IN
    /\ head' = h
    /\ heap' = Clean(CopyHeap(id, TouchNeed(id), newleaf), h, views)
    /\ nid' = nid + 2
    /\ UNCHANGED <<views, order, geo>>

(* v: the value written afterwards, -1: none.                               *)
Touch(id, n, newleaf, v) ==
    LET h == Copied(id, n, newleaf)
        hp == CopyHeap(id, n, newleaf) IN
    /\ head' = h
    /\ heap' = IF v < 0 THEN hp
               ELSE Fill(hp, h.leaf[LeafOf(id)], id % geo.lc, 1, v)
    /\ nid' = nid + 2
    /\ UNCHANGED <<views, order, geo>>

Open(k) ==
    /\ views' = (k :> head) @@ views
    /\ order' = Append(order, k)
    /\ UNCHANGED <<head, heap, nid, geo>>

Close(k) ==
    LET vs == [j \in DOMAIN views \ {k} |-> views[j]] IN
    /\ views' = vs
    /\ order' = SelectSeq(order, LAMBDA x : x # k)
    /\ heap' = Clean(heap, head, vs)
    /\ UNCHANGED <<head, nid, geo>>

Drop ==
    /\ head' = Empty /\ views' = <<>> /\ order' = <<>> /\ heap' = <<>>
    /\ UNCHANGED <<nid, geo>>

-----------------------------------------------------------------------------
(* Extents shared by two versions are at the same place in both.             *)
Places(v, w) ==
    /\ \A i \in 1..Len(v.leaf), j \in 1..Len(w.leaf) :
        v.leaf[i] = w.leaf[j] => i = j
    /\ \A i \in 1..Len(v.l2), j \in 1..Len(w.l2) : v.l2[i] = w.l2[j] => i = j
Versions == <<head>> \o [i \in 1..Len(order) |-> views[order[i]]]
MInv ==
    /\ \A k \in DOMAIN views : \E i \in 1..Len(order) : order[i] = k
    /\ \A i, j \in 1..Len(Versions) : Places(Versions[i], Versions[j])
    /\ \A i \in 1..Len(Versions) : LET v == Versions[i] IN
        v.cnt > 0 => Len(v.leaf) = Ceil(v.cnt, geo.lc)
                     /\ Len(v.l2) = Ceil(Len(v.leaf), geo.lp)
    /\ DOMAIN heap = AllLeaves(head, views)

(* What a view that is closed does not share with its neighbours is what     *)
(* nobody else can see: it is enough to look at the neighbours.              *)
NeighbourTheorem ==
    \A i \in 1..Len(order) :
        LET k == order[i]
            others == [j \in DOMAIN views \ {k} |-> views[j]]
            next == IF i = Len(order) THEN head ELSE views[order[i + 1]]
            prev == IF i = 1 THEN Empty ELSE views[order[i - 1]] IN
        Nodes(views[k]) \ AllNodes(head, others)
            = Nodes(views[k]) \ (Nodes(next) \cup Nodes(prev))
(* It is enough to compare with the newest view to know what to copy.        *)
NewestTheorem ==
    order # <<>> =>
        Nodes(head) \cap ViewNodes(views)
            = Nodes(head) \cap Nodes(views[order[Len(order)]])
=============================================================================

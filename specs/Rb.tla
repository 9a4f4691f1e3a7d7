-------------------------------- MODULE Rb ----------------------------------
(* A red-black tree as a sorted sequence of distinct values.  A key is a      *)
(* group of values: search by key can match several nodes.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    nodes,   \* values in the tree, ascending
    width    \* values per key

bvars == <<nodes, width>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Group(v) == v \div width
Has(v) == \E i \in 1..Len(nodes) : nodes[i] = v
Index(v) == CHOOSE i \in 1..Len(nodes) : nodes[i] = v
At(i) == IF i \in 1..Len(nodes) THEN nodes[i] ELSE 0

Insert(v) == /\ ~Has(v)
             /\ nodes' = SelectSeq(nodes, LAMBDA x : x < v) \o <<v>>
                         \o SelectSeq(nodes, LAMBDA x : x > v)
             /\ UNCHANGED width
Remove(v) == /\ Has(v)
             /\ nodes' = SelectSeq(nodes, LAMBDA x : x # v)
             /\ UNCHANGED width

(* Positions: 0 stands for none.                                             *)
NLess(k) == Cardinality({i \in 1..Len(nodes) : Group(nodes[i]) < k})
NUpto(k) == Cardinality({i \in 1..Len(nodes) : Group(nodes[i]) <= k})
Pos(i) == IF i \in 1..Len(nodes) THEN i ELSE 0
Matches(k) == (NLess(k) + 1)..NUpto(k)
(* The rightmost match, or what would be the successor.                       *)
NSearch(k) == IF Matches(k) # {} THEN NUpto(k) ELSE Pos(NUpto(k) + 1)
(* The leftmost match, or what would be the predecessor.                      *)
PSearch(k) == IF Matches(k) # {} THEN NLess(k) + 1 ELSE NLess(k)
Le(k) == NUpto(k)
Ge(k) == Pos(NLess(k) + 1)
Lt(k) == NLess(k)
Gt(k) == Pos(NUpto(k) + 1)

(* An iterator at position i that is moved: 1 is forward.                     *)
RECURSIVE Moved(_, _)
Moved(i, mv) ==
    IF mv = <<>> THEN <<>>
    ELSE <<At(i)>> \o Moved(IF i = 0 THEN 0
                            ELSE IF Head(mv) = 1 THEN Pos(i + 1) ELSE i - 1,
                            Tail(mv))
Iterator(i, mv) == <<At(i)>> \o Moved(i, mv)

(* Iteration with a callback: stop = 0 is never.                              *)
Visited(from, rev, stop) ==
    LET q == IF from = 0 THEN nodes
             ELSE IF rev THEN SubSeq(nodes, 1, Index(from))
             ELSE SubSeq(nodes, Index(from), Len(nodes))
        d == IF rev THEN Rev(q) ELSE q
    IN IF stop = 0 \/ stop > Len(d) THEN d ELSE SubSeq(d, 1, stop)
Stopped(from, rev, stop) ==
    LET d == Visited(from, rev, 0) IN
    IF stop = 0 \/ stop > Len(d) THEN 0 ELSE d[stop]

(* Height of a left-leaning red-black tree of n nodes.                        *)
HeightOk(h, n) == 2 ^ h <= (n + 1) * (n + 1)

(* A tree as a walk reports it: nodes in pre-order with their children.       *)
(* InOrder is the in-order sequence of the subtree whose walk starts at i,    *)
(* with the position after it; <<>>, 0 when the report contradicts itself.    *)
RECURSIVE Parse(_, _)
Parse(w, i) ==
    LET n == w[i]
        L == IF n[2] = 0 THEN <<<<>>, i + 1>>
             ELSE IF i + 1 > Len(w) \/ w[i + 1][1] # n[2] THEN <<<<>>, 0>>
             ELSE Parse(w, i + 1)
        R == IF L[2] = 0 THEN <<<<>>, 0>>
             ELSE IF n[3] = 0 THEN <<<<>>, L[2]>>
             ELSE IF L[2] > Len(w) \/ w[L[2]][1] # n[3] THEN <<<<>>, 0>>
             ELSE Parse(w, L[2])
    IN IF R[2] = 0 THEN <<<<>>, 0>>
       ELSE <<L[1] \o <<n[1]>> \o R[1], R[2]>>
IsTree(w) == IF w = <<>> THEN nodes = <<>>
             ELSE Parse(w, 1) = <<nodes, Len(w) + 1>>

(* Nodes a guided walk visits: the i-th visited node is left into the         *)
(* directions dirs[i]: 1 to the left child, 2 to the right, 3 both.           *)
Row(w, v) == w[CHOOSE i \in 1..Len(w) : w[i][1] = v]
RECURSIVE Guided(_, _, _, _)
Guided(w, v, i, dirs) ==
    LET d == dirs[((i - 1) % Len(dirs)) + 1]
        r == Row(w, v)
        L == IF d % 2 = 1 /\ r[2] # 0 THEN Guided(w, r[2], i + 1, dirs)
             ELSE <<>>
        R == IF d \div 2 = 1 /\ r[3] # 0
             THEN Guided(w, r[3], i + 1 + Len(L), dirs) ELSE <<>>
    IN <<r>> \o L \o R
GuidedWalk(w, dirs) == IF w = <<>> THEN <<>> ELSE Guided(w, w[1][1], 1, dirs)

(* The augmentation: size of the subtree, sum of its values modulo 1009.      *)
AugSize(w, v) == IF v = 0 THEN 0 ELSE Row(w, v)[4]
AugSum(w, v) == IF v = 0 THEN 0 ELSE Row(w, v)[5]
Augmented(w) == \A i \in 1..Len(w) : LET n == w[i] IN
    /\ n[4] = 1 + AugSize(w, n[2]) + AugSize(w, n[3])
    /\ n[5] = (n[1] % 1009) + AugSum(w, n[2]) + AugSum(w, n[3])

BInv == \A i \in 1..(Len(nodes) - 1) : nodes[i] < nodes[i + 1]
=============================================================================

------------------------------ MODULE MCSystem ------------------------------
(* Memory for Cap units; pieces of 1 (a little) up to 4 (more than a slab).   *)
EXTENDS System, TLC, Json
CONSTANTS Boxes, Sizes, MaxPieces, MaxOps
VARIABLES hist, last, nh
vars == <<svars, hist, last, nh>>
LogOp(op) == hist' = Append(hist, op) /\ last' = op
Init == /\ boxes = [b \in 1..14 |-> <<>>] /\ hist = <<>> /\ last = <<"">>
        /\ nh = 1
Live(b) == Len(boxes[b])
DoGet(b, n) == /\ Cardinality(UNION {{<<x, i>> : i \in 1..Live(x)} : x \in Boxes})
                  < MaxPieces
               /\ Get(b, [h |-> nh, n |-> n]) /\ nh' = nh + 1
               /\ LogOp(<<"get", b, n>>)
DoDrop(b) == Live(b) > 0 /\ Drop(b, 1) /\ LogOp(<<"drop", b, 1>>)
             /\ UNCHANGED nh
DoKeep(b, k) == /\ Live(b) > k /\ Keep(b, k) /\ UNCHANGED nh
                /\ LogOp(IF k = 0 THEN <<"clear", b>> ELSE <<"keep", b, k>>)
DoFree(b, i) == /\ i \in 1..Live(b) /\ Free(b, boxes[b][i].h) /\ UNCHANGED nh
                /\ LogOp(<<"free", b, i - 1>>)
DoAgain(b) == Live(b) > 0 /\ Again(b) /\ LogOp(<<"again", b>>) /\ UNCHANGED nh
DoReserve(b, n) == /\ CanReserve(b) /\ Same(b) /\ UNCHANGED nh
                   /\ last[1] # "reserve" /\ LogOp(<<"reserve", b, n>>)
DoRenew(c) == /\ \E b \in OfCache(c) : Live(b) > 0
              /\ Renew(c) /\ UNCHANGED nh /\ LogOp(<<"renew", c>>)
Next == /\ Len(hist) < MaxOps
        /\ \E b \in Boxes : \/ \E n \in Sizes : DoGet(b, n) \/ DoReserve(b, n)
                            \/ DoDrop(b) \/ DoAgain(b)
                            \/ \E k \in 0..1 : DoKeep(b, k)
                            \/ \E i \in 1..2 : DoFree(b, i)
                            \/ DoRenew(CacheOf(b))
Spec == Init /\ [][Next]_vars
(* A piece belongs to one container only, the oldest come first.            *)
Owned == \A b, c \in Boxes : \A i \in 1..Live(b), j \in 1..Live(c) :
    boxes[b][i].h = boxes[c][j].h => b = c /\ i = j
Ordered == \A b \in Boxes : \A i, j \in 1..Live(b) :
    i < j => boxes[b][i].h < boxes[b][j].h
(* An operation changes one container, or those of one cache.               *)
Frame == [][LET C == {b \in Boxes : boxes'[b] # boxes[b]} IN
            Cardinality(C) <= 1 \/ \E c \in 1..2 : C \subseteq OfCache(c)]_vars
View == <<[b \in Boxes |-> [i \in 1..Live(b) |-> boxes[b][i].n]], last>>
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

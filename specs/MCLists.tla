------------------------------ MODULE MCLists -------------------------------
EXTENDS Lists, Json
CONSTANTS MaxOps, NE, NL
VARIABLES hist, last
vars == <<lvars, hist, last>>
L == 1..NL
E == 1..NE
Init == /\ lists = [l \in L |-> <<>>] /\ stale = {} /\ alone = E
        /\ stack = <<>> /\ slabs = <<>> /\ hist = <<>> /\ last = <<>>
LogOp(op) == hist' = Append(hist, op) /\ last' = op
(* Elements are interchangeable: the smallest one is used.                   *)
Free == {e \in E : In(e) = {}}
Next ==
    /\ Len(hist) < MaxOps
    /\ \/ \E l \in L, e \in Free : /\ \A f \in Free : e <= f
                                   /\ \/ Add(l, e) /\ LogOp(<<"add", l, e>>)
                                      \/ AddTail(l, e) /\ LogOp(<<"addt", l, e>>)
       \/ \E e \in E : Del(e) /\ In(e) # {} /\ LogOp(<<"del", 0, e>>)
       \/ \E l \in L : \/ Shift(l) /\ LogOp(<<"shift", l>>)
                       \/ ShiftTail(l) /\ LogOp(<<"shiftt", l>>)
                       \/ Discard(l) /\ LogOp(<<"discard", l>>)
                       \/ Create(l) /\ LogOp(<<"create", l>>)
       \/ \E l \in L, e \in E : \/ Move(l, e) /\ LogOp(<<"move", l, e>>)
                                \/ MoveTail(l, e) /\ LogOp(<<"movet", l, e>>)
       \/ \E l, k \in L : \/ Swap(l, k) /\ LogOp(<<"swap", l, k>>)
                          \/ Splice(l, k) /\ LogOp(<<"splice", l, k>>)
                          \/ SpliceTail(l, k) /\ LogOp(<<"splicet", l, k>>)
       \/ \E l, k \in L : \E i \in 0..Len(lists[k]) :
            /\ Cut(l, k, IF i = Len(lists[k]) THEN 0 ELSE lists[k][i + 1])
            /\ LogOp(<<"cut", l, k, i>>)
       \/ \E l \in L, r \in 0..1 : Purge(l, r) /\ LogOp(<<"purge", l, r, 1 - r>>)
Spec == Init /\ [][Next]_vars
View == <<lists, stale, last>>
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

------------------------------ MODULE MCMatras ------------------------------
(* Extents of two pointers or two blocks: eight blocks at most.              *)
EXTENDS Matras, Json
CONSTANTS Views, MaxOps, Ranges, Limits, Reserves
VARIABLES hist, last, cont, snap, budget, val, nleaf
vars == <<mvars, hist, last, cont, snap, budget, val, nleaf>>
Lots == 1000

Init ==
    /\ head = Empty /\ views = <<>> /\ order = <<>> /\ heap = <<>>
    /\ rsv = 0 /\ promise = 0 /\ nid = 0
    /\ geo = [lc |-> 2, lp |-> 2, cap |-> 4]
    /\ hist = <<>> /\ last = <<>> /\ cont = <<>> /\ snap = <<>>
    /\ budget = Lots /\ val = 1 /\ nleaf = 1
LogOp(op) == hist' = Append(hist, op) /\ last' = op
Min2(a, b) == IF a < b THEN a ELSE b
(* Extents come from the reserve first.                                     *)
Take(n) ==
    /\ rsv' = rsv - Min2(rsv, n)
    /\ budget' = IF budget = Lots THEN Lots
                 ELSE budget - Min2(budget, n - Min2(rsv, n))
Have == rsv + budget
Fresh == nleaf' = nleaf + 1

DoAlloc(n) ==
    /\ ~Full(n) /\ head.cnt % n = 0
    /\ Take(AllocNeed)
    /\ IF AllocNeed <= Have
       THEN /\ Alloc(n, nleaf, val) /\ cont' = cont \o [i \in 1..n |-> val]
            /\ promise' = IF rsv' < rsv THEN 0 ELSE promise
       ELSE /\ UNCHANGED <<head, views, order, heap, nid, geo, cont>>
            /\ promise' = 0
    /\ val' = val + 1 /\ Fresh /\ UNCHANGED snap
    /\ LogOp(IF n = 1 THEN <<"alloc">> ELSE <<"range", n>>)
Less(p) == IF p > 0 THEN p - 1 ELSE 0
DoDealloc(n) ==
    /\ head.cnt >= n /\ head.cnt % n = 0
    /\ LET id == head.cnt - n IN
       /\ Take(TouchNeed(id))
       /\ IF TouchNeed(id) <= Have
          THEN Dealloc(n, nleaf) /\ cont' = SubSeq(cont, 1, id)
          ELSE Touch(id, Have, nleaf, -1) /\ UNCHANGED cont
    /\ promise' = Less(promise)
    /\ Fresh /\ UNCHANGED <<snap, val>>
    /\ LogOp(IF n = 1 THEN <<"dealloc">> ELSE <<"drange", n>>)
DoWrite(id) ==
    /\ Take(TouchNeed(id))
    /\ IF TouchNeed(id) <= Have
       THEN Touch(id, TouchNeed(id), nleaf, val)
            /\ cont' = [cont EXCEPT ![id + 1] = val]
       ELSE promise = 0 /\ Touch(id, Have, nleaf, -1) /\ UNCHANGED cont
    /\ promise' = Less(promise)
    /\ val' = val + 1 /\ Fresh /\ UNCHANGED snap
    /\ LogOp(<<"write", id>>)
DoOpen(k) ==
    /\ k \notin DOMAIN views /\ \A j \in 1..(k - 1) : j \in DOMAIN views
    /\ Open(k) /\ snap' = (k :> cont) @@ snap
    /\ promise' = 0 /\ LogOp(<<"view", k>>)
    /\ UNCHANGED <<rsv, cont, budget, val, nleaf>>
DoClose(k) ==
    /\ k \in DOMAIN views
    /\ Close(k) /\ LogOp(<<"unview", k>>)
    /\ UNCHANGED <<rsv, promise, cont, snap, budget, val, nleaf>>
DoLimit(n) ==
    /\ budget # n /\ budget' = n
    /\ LogOp(<<"limit", IF n = Lots THEN -1 ELSE n>>)
    /\ UNCHANGED <<mvars, cont, snap, val, nleaf>>
DoReserve(n) ==
    /\ order # <<>>
    /\ LET more == 2 * n + 1 - rsv IN
       IF more <= budget
       THEN /\ rsv' = IF more > 0 THEN rsv + more ELSE rsv
            /\ budget' = IF budget = Lots \/ more < 0 THEN budget
                         ELSE budget - more
            /\ promise' = n
       ELSE rsv' = rsv + budget /\ budget' = 0 /\ UNCHANGED promise
    /\ LogOp(<<"reserve", n>>)
    /\ UNCHANGED <<head, views, order, heap, nid, geo, cont, snap, val, nleaf>>
Next ==
    /\ Len(hist) < MaxOps
    /\ \/ \E n \in Ranges : DoAlloc(n) \/ DoDealloc(n)
       \/ \E id \in 0..(head.cnt - 1) : DoWrite(id)
       \/ \E k \in Views : DoOpen(k) \/ DoClose(k)
       \/ \E n \in Limits : DoLimit(n)
       \/ \E n \in Reserves : DoReserve(n)
Spec == Init /\ [][Next]_vars

HeadReads == Read(head) = cont
ViewsRead == \A k \in DOMAIN views : Read(views[k]) = snap[k]
(* The touches promised by a reservation cannot fail.                       *)
Promised == promise > 0 =>
    \A id \in 0..(head.cnt - 1) : TouchNeed(id) <= rsv
Share(v, w) ==
    IF v.cnt = 0 \/ w.cnt = 0 THEN <<>>
    ELSE <<v.root = w.root,
           {i \in 1..Len(v.l2) : i <= Len(w.l2) /\ v.l2[i] = w.l2[i]},
           {i \in 1..Len(v.leaf) : i <= Len(w.leaf) /\ v.leaf[i] = w.leaf[i]}>>
View == <<[i \in 1..Len(Versions) |-> Versions[i].cnt], order,
          [i \in 1..Len(Versions) |->
            [j \in 1..Len(Versions) |-> Share(Versions[i], Versions[j])]],
          rsv, promise, budget, last>>
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

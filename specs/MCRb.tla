-------------------------------- MODULE MCRb --------------------------------
(* All the shapes of trees of up to NMax nodes, reached by insertions, and    *)
(* every insertion into and removal from each of them.  Values are ranks:     *)
(* 2, 4, ...; a new one is odd.                                               *)
EXTENDS RbTree, Json
CONSTANTS NMax, MaxOps
VARIABLES tree, size, hist, last, good
vars == <<tree, size, hist, last, good>>

Rank(q) == [v \in {q[i] : i \in 1..Len(q)} |->
                2 * (CHOOSE i \in 1..Len(q) : q[i] = v)]
Evens(n) == [i \in 1..n |-> 2 * i]
Init == tree = Nil /\ size = 0 /\ hist = <<>> /\ last = <<>> /\ good = TRUE
InsertAt(i) ==
    /\ size < NMax
    /\ \E t \in {InsertIn(tree, 2 * i + 1)} :
       LET q == InOrder(t) IN
       /\ good' = (q = [j \in 1..(size + 1) |-> IF j <= i THEN 2 * j
                        ELSE IF j = i + 1 THEN 2 * i + 1 ELSE 2 * (j - 1)])
       /\ tree' = Map(t, Rank(q))
    /\ size' = size + 1
    /\ hist' = Append(hist, <<"insr", i>>) /\ last' = <<"i", i>>
RemoveAt(i) ==
    /\ \E t \in {RemoveFrom(tree, 2 * i)} :
       LET q == InOrder(t) IN
       /\ good' = (q = SelectSeq(Evens(size), LAMBDA x : x # 2 * i))
       /\ tree' = Map(t, Rank(q))
    /\ size' = size - 1
    /\ hist' = Append(hist, <<"delr", i>>) /\ last' = <<"d", i>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E i \in 0..size : InsertAt(i)
           \/ \E i \in 1..size : RemoveAt(i)
Spec == Init /\ [][Next]_vars
View == <<tree, last>>
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
TreeInv ==
    /\ good
    /\ InOrder(tree) = Evens(size)
    /\ Black(tree) # -1 /\ Leaning(tree) /\ ~Red(tree)
    /\ 2 ^ Height(tree) <= (size + 1) * (size + 1)
=============================================================================

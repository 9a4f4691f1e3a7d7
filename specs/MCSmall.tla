------------------------------ MODULE MCSmall ------------------------------
(* Three or four classes in two groups over a bounded amount of memory.      *)
EXTENDS Small, Json

CONSTANTS Classes, Slabs, Cap, MaxSlabs, MaxChunks

VARIABLES spare, hist, last
vars == <<smvars, spare, hist, last>>

(* Pools keep their chunks packed: ceil(cnt / Cap) slabs and maybe a spare. *)
InUse(i) == (cnt[i] + Cap - 1) \div Cap
SlabsTotal == LET F(i) == InUse(i) IN MapThenSumSet(F, 1..N) + Cardinality(spare)
RoomIn(p) == cnt[p] % Cap # 0 \/ p \in spare \/ SlabsTotal < MaxSlabs

Init ==
    /\ classes = Classes /\ slabsz = Slabs /\ grp = Groups(Slabs)
    /\ act = InitialAct(Groups(Slabs))
    /\ cnt = [i \in 1..Len(Classes) |-> 0]
    /\ waste = [i \in 1..Len(Classes) |-> 0]
    /\ chunks = <<>> /\ spare = {} /\ hist = <<>> /\ last = <<>>
LogOp(op) == hist' = Append(hist, op) /\ last' = op

NewH == CHOOSE h \in 1..MaxChunks : h \notin DOMAIN chunks

DoAlloc(i) ==
    /\ Cardinality(DOMAIN chunks) < MaxChunks
    /\ LET p == UsedPool(i, act)
           spare2 == {q \in spare : q \notin act \ Swept(act)}
           p2 == UsedPool(i, Swept(act))
           room2 == cnt[p2] % Cap # 0 \/ p2 \in spare2
                    \/ SlabsTotal - Cardinality(spare) + Cardinality(spare2)
                       < MaxSlabs IN
       IF RoomIn(p)
       THEN /\ AllocSmall(NewH, classes[i], NewH, 0, FALSE)
            /\ spare' = IF cnt[p] % Cap = 0 THEN spare \ {p} ELSE spare
       ELSE IF room2
       THEN /\ AllocSmall(NewH, classes[i], NewH, 0, TRUE)
            /\ spare' = IF cnt[p2] % Cap = 0 THEN spare2 \ {p2} ELSE spare2
       ELSE Refuse(classes[i]) /\ spare' = spare2
    /\ LogOp(<<"alloc", i>>)

DoFree(i, p) ==
    /\ \E h \in DOMAIN chunks :
        /\ chunks[h].own = i /\ chunks[h].pool = p
        /\ \A g \in DOMAIN chunks :
            chunks[g].own = i /\ chunks[g].pool = p => h <= g
        /\ Free(h)
    /\ spare' = IF cnt[p] % Cap = 1 \/ Cap = 1 THEN spare \cup {p} ELSE spare
    /\ LogOp(<<"free", i, p>>)

Next == \/ \E i \in 1..N : DoAlloc(i)
        \/ \E i, p \in 1..N : DoFree(i, p)
Spec == Init /\ [][Next]_vars

Tally == [i \in 1..N |-> [p \in 1..N |->
    Cardinality({h \in DOMAIN chunks : chunks[h].own = i /\ chunks[h].pool = p})]]
View == <<Tally, act, spare, last>>
MemoryBounded == SlabsTotal <= MaxSlabs
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)

CL == <<1, 2, 4, 8>>
SL == <<32, 32, 32, 32>>     \* two groups: {1, 2, 3} and {4}
=============================================================================

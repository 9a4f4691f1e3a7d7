------------------------------ MODULE MCRegion ------------------------------
(* One region over blocks whose sizes are powers of two; addresses grow.     *)
EXTENDS Region, Json

CONSTANTS MaxUsed, MaxEnts, MaxBlocks, Sizes

VARIABLES hist, last
vars == <<rgvars, hist, last>>
R == 1

(* 5 units hold 4 of data, 9 hold 8, 17 hold 16.                            *)
BlockFor(n) == CHOOSE b \in {5, 9, 17, 33} :
    b - hdr >= n /\ \A c \in {5, 9, 17, 33} : c - hdr >= n => b <= c

Init ==
    /\ hdr = 1 /\ regs = (R :> Empty) /\ live = <<>>
    /\ hist = <<>> /\ last = <<>>
LogOp(op) == hist' = Append(hist, op) /\ last' = op

(* The n-th block of the region lives at its own zone.                      *)
Handles == 1..MaxEnts
NewH == CHOOSE h \in Handles : h \notin DOMAIN live
Place(r, newsz) ==
    LET n == Len(regs[r].blocks) + (IF newsz > 0 THEN 1 ELSE 0) IN
    <<n, IF newsz > 0 THEN 0 ELSE Newest(r).used>>

NewSize(r, n) == IF n <= Unused(r) THEN 0 ELSE BlockFor(n)
Room(r, newsz) == newsz = 0 \/ Len(regs[r].blocks) < MaxBlocks

DoAlloc(n) ==
    /\ Used(R) + n <= MaxUsed /\ Len(regs[R].ents) < MaxEnts
    /\ regs[R].resv # <<>> => n <= regs[R].resv[1].size
    /\ LET ns == NewSize(R, n)  p == Place(R, ns) IN
       /\ Room(R, ns)
       /\ PlaceFree(R, p[1], p[2], n)
       /\ Alloc(R, NewH, p[1], p[2], n, n, ns)
    /\ LogOp(<<"alloc", n>>)

DoReserve(n) ==
    /\ regs[R].resv = <<>>
    /\ LET ns == NewSize(R, n)  p == Place(R, ns) IN
       /\ Room(R, ns)
       /\ Reserve(R, p[1], p[2], n, 1, ns)
    /\ LogOp(<<"reserve", n>>)

DoTruncate(to) ==
    /\ to <= Used(R)
    /\ Truncate(R, to)
    /\ LogOp(<<"cut", Used(R) - to>>)

DoJoin(n) ==
    /\ n <= Used(R) /\ n > 0 /\ regs[R].resv = <<>>
    /\ IF n <= Newest(R).used THEN UNCHANGED rgvars
       ELSE /\ Used(R) + n <= MaxUsed /\ Len(regs[R].ents) < MaxEnts
            /\ LET ns == NewSize(R, n)  p == Place(R, ns) IN
               Room(R, ns) /\ Alloc(R, NewH, p[1], p[2], n, n, ns)
    /\ LogOp(<<"join", n>>)

Next ==
    \/ \E n \in Sizes : DoAlloc(n) \/ DoReserve(n)
    \/ \E to \in 0..MaxUsed : DoTruncate(to)
    \/ \E n \in 1..MaxUsed : DoJoin(n)
    \/ regs[R].blocks # <<>> /\ Reset(R) /\ LogOp(<<"reset">>)
    \/ regs[R].blocks # <<>> /\ Free(R) /\ LogOp(<<"free">>)

Spec == Init /\ [][Next]_vars

Shape == [r \in DOMAIN regs |->
    [b |-> [i \in 1..Len(regs[r].blocks) |->
              <<regs[r].blocks[i].sz, regs[r].blocks[i].used>>],
     e |-> [i \in 1..Len(regs[r].ents) |-> regs[r].ents[i].eff],
     v |-> regs[r].resv]]
View == <<Shape, last>>
(* Truncating to what is used changes only idle blocks and reservations.    *)
TruncateToUsedKeeps ==
    [][\A to \in {Used(R)} : Truncate(R, to) => Used(R)' = Used(R)]_vars
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

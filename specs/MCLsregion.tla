----------------------------- MODULE MCLsregion -----------------------------
(* Regular slabs of 5 units hold 4; each slab lives in a zone of its own.    *)
EXTENDS Lsregion, Json
CONSTANTS Sizes, MaxSlabs, MaxLive, MaxOps, Counts, NSvp
VARIABLES hist, last, nz, id, out, floor
vars == <<lsvars, hist, last, nz, id, out, floor>>

Init ==
    /\ ls = <<>> /\ cached = 0 /\ resv = <<>> /\ live = <<>> /\ gone = 0
    /\ geo = [slab |-> 5, hdr |-> 1, checked |-> FALSE]
    /\ hist = <<>> /\ last = <<>> /\ nz = 0 /\ id = 0
    /\ out = [k \in 1..NSvp |-> <<>>] /\ floor = NoId
LogOp(op) == hist' = Append(hist, op) /\ last' = op

Fits(n) == n <= Unused
Zone(n) == IF Fits(n) THEN Newest.at ELSE <<nz, 0>>
Handles == 1..MaxLive
DoReserve(n) ==
    /\ resv = <<>> /\ (Fits(n) \/ Len(ls) < MaxSlabs)
    /\ Reserve(n, n, Fits(n), NSvp, Zone(n))
    /\ nz' = nz + 1 /\ LogOp(<<"reserve", n>>) /\ UNCHANGED <<id, out, floor>>
DoAlloc(n, d) ==
    /\ resv # <<>> => n <= resv[1]
    /\ Fits(n) \/ Len(ls) < MaxSlabs
    /\ \E h \in Handles \ DOMAIN live :
       /\ \A g \in Handles \ DOMAIN live : h <= g
       /\ Alloc(h, Zone(n)[1], IF Fits(n) THEN Newest.used ELSE 0, n, n, n,
                id + d, Fits(n), NSvp)
    /\ id' = id + d
    /\ nz' = nz + 1 /\ LogOp(<<"alloc", n, d>>) /\ UNCHANGED <<out, floor>>
DoGc(d) ==
    /\ ls # <<>> /\ d <= id
    /\ Gc(id - d) /\ LogOp(<<"gc", d>>)
    /\ floor' = IF id - d > floor THEN id - d ELSE floor
    /\ UNCHANGED <<nz, id, out>>
DoFlush(k, c) ==
    /\ ls # <<>>
    /\ Flush(k, c)
    /\ out' = [out EXCEPT ![k] = @ \o Vectors(k, c)]
    /\ LogOp(<<"flush", k, c>>) /\ UNCHANGED <<nz, id, floor>>
Next ==
    /\ Len(hist) < MaxOps
    /\ \/ \E n \in Sizes : DoReserve(n) \/ \E d \in 0..1 : DoAlloc(n, d)
       \/ \E d \in 0..2 : DoGc(d)
       \/ \E k \in 1..NSvp : \E c \in Counts : DoFlush(k, c)
Spec == Init /\ [][Next]_vars

(* What is younger than any collected id is there.                          *)
Keep == [][\A h \in DOMAIN live :
            live[h].id > floor' => h \in DOMAIN live' /\ live'[h] = live[h]]_vars
(* No byte is flushed twice to the same savepoint.                          *)
Once == \A k \in 1..NSvp : \A i, j \in 1..Len(out[k]) : i # j =>
    Apart(out[k][i].at[1], out[k][i].at[2], out[k][i].len,
          out[k][j].at[1], out[k][j].at[2], out[k][j].len)
(* Nothing is missing: what is still there is flushed or pending.           *)
Complete == \A k \in 1..NSvp : \A i \in 1..Len(ls) :
    LET got == {j \in 1..Len(out[k]) : out[k][j].at[1] = ls[i].at[1]}
        F(j) == out[k][j].len IN
    ls[i].at # <<>> => MapThenSumSet(F, got) = ls[i].fl[k]
View == <<[i \in 1..Len(ls) |-> <<ls[i].sz, ls[i].used, id - ls[i].max, ls[i].fl>>],
          cached, resv, last>>
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

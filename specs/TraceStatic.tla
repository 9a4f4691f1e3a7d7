---------------------------- MODULE TraceStatic ----------------------------
EXTENDS Static, TraceLib
tvars == <<svars, l>>

TInit == l = 1 /\ pos = <<>> /\ live = <<>> /\ geo = [size |-> 0, base |-> <<>>]
TReset0 ==
    /\ Ev.op = "init"
    /\ Chk("V01", "threads share a buffer", Ev.apart = 1)
    /\ pos' = [t \in 1..2 |-> 0] /\ live' = [t \in 1..2 |-> {}]
    /\ geo' = [size |-> Ev.size, base |-> Ev.bases]

Damaged == {Ev.dam[i] : i \in 1..Len(Ev.dam)}
Promised == {p.h : p \in live'[1] \cup live'[2]}
Core ==
    /\ Chk("V01", "position", Ev.pos = pos'[Ev.t])
    /\ Chk("V01", "content damaged", Damaged \cap Promised = {})

TAsk ==
    /\ Ev.op \in {"alloc", "reserve"}
    /\ IF Ev.okp = 0
       THEN /\ Chk("V01", "refused though it fits", ~Possible(Ev.n, Ev.al))
            /\ UNCHANGED svars
       ELSE /\ Chk("V01", "does not fit", Possible(Ev.n, Ev.al))
            /\ Chk("V01", "place", Ev.off = Where(Ev.t, Ev.n, Ev.al))
            /\ \E r \in {<<Ev.t, Ev.h, Ev.n, Ev.al>>} :
                IF Ev.op = "alloc" THEN Alloc(r[1], r[2], r[3], r[4])
                ELSE Reserve(r[1], r[3], r[4])
    /\ Core
THuge ==
    /\ Ev.op = "huge"
    /\ Chk("V01", "impossible request is served", Ev.okp = 0)
    /\ UNCHANGED svars /\ Core
TReset ==
    /\ Ev.op = "reset" /\ (\E t \in {Ev.t} : Reset(t)) /\ Core

TNext == HasEvent /\ (TReset0 \/ TAsk \/ THuge \/ TReset) /\ Consume
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

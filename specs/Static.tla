------------------------------- MODULE Static -------------------------------
(* A cyclic buffer per thread: pieces are handed out one after the other;    *)
(* what does not fit in the rest starts the buffer over.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    pos,     \* thread -> next free position
    live,    \* thread -> set of [h, off, n] handed out since it started over
    geo      \* [size, base: thread -> address of its buffer]

svars == <<pos, live, geo>>
Threads == DOMAIN pos
Pad(x, al) == (al - (x % al)) % al
AlignUp(t, p, al) == p + Pad(geo.base[t] + p, al)

(* Room for alignment is always counted in.                                  *)
Possible(n, al) == n + al - 1 <= geo.size
InRest(t, n, al) == pos[t] + n + al - 1 <= geo.size
Where(t, n, al) == AlignUp(t, IF InRest(t, n, al) THEN pos[t] ELSE 0, al)

Reserve(t, n, al) ==
    /\ Possible(n, al)
    /\ pos' = [pos EXCEPT ![t] = IF InRest(t, n, al) THEN @ ELSE 0]
    /\ live' = [live EXCEPT ![t] = IF InRest(t, n, al) THEN @ ELSE {}]
    /\ UNCHANGED geo
Alloc(t, h, n, al) ==
    /\ Possible(n, al)
    /\ pos' = [pos EXCEPT ![t] = Where(t, n, al) + n]
    /\ live' = [live EXCEPT ![t] =
                (IF InRest(t, n, al) THEN @ ELSE {})
                \cup {[h |-> h, off |-> Where(t, n, al), n |-> n]}]
    /\ UNCHANGED geo
Reset(t) ==
    /\ pos' = [pos EXCEPT ![t] = 0]
    /\ live' = [live EXCEPT ![t] = {}]
    /\ UNCHANGED geo

SInv == \A t \in Threads :
    /\ pos[t] \in 0..geo.size
    /\ \A p \in live[t] : p.off >= 0 /\ p.off + p.n <= pos[t]
    /\ \A p, q \in live[t] : p.h # q.h =>
        p.n = 0 \/ q.n = 0 \/ p.off + p.n <= q.off \/ q.off + q.n <= p.off
=============================================================================

---------------------------- MODULE MCSlabCache ----------------------------
(***************************************************************************)
(* Exhaustive exploration of a small slab cache.  `hist' is the operation   *)
(* script that led to the state; the view hides it, so that TLC emits one   *)
(* script per (abstract state, last operation): the transition cover that   *)
(* is replayed against the library.                                         *)
(***************************************************************************)
EXTENDS SlabCache, Json

CONSTANTS OMAX, NSLABS, MAXLIVE, MAXBIG

VARIABLES hist, last
vars == <<scvars, hist, last>>

Handles == 1..(MAXLIVE + MAXBIG)
FreeHandle == CHOOSE h \in Handles : h \notin DOMAIN live \cup DOMAIN big
                /\ \A k \in Handles : k < h => k \in DOMAIN live \cup DOMAIN big
HasHandle == DOMAIN live \cup DOMAIN big # Handles

Init ==
    /\ cfg = [slab |-> Unit * Pow2(OMAX), order0 |-> Unit, omax |-> OMAX,
              hdr |-> 0]
    /\ live = <<>> /\ free = {} /\ spare = 0 /\ big = <<>> /\ mapped = 0
    /\ quota = NSLABS * Pow2(OMAX)
    /\ hist = <<>> /\ last = <<"init">>

Log1(op) == hist' = Append(hist, op) /\ last' = op

(* Slab numbers: canonical (lowest unused), as they are anonymous.          *)
NewSlab == CHOOSE s \in 1..(NSLABS + 1) : s \notin Busy
             /\ \A k \in 1..(NSLABS + 1) : k < s => k \in Busy

DoGet(o) ==
    /\ Cardinality(DOMAIN live) < MAXLIVE /\ HasHandle
    /\ \/ \E f \in free \cup {Whole(NewSlab)} :
             /\ f.o >= o
             /\ Get(f.s, f.off, o, FreeHandle)    \* the low half is used
       \/ GetFailOk(o) /\ UNCHANGED scvars
    /\ Log1(<<"getord", o>>)

DoPut(h) ==
    /\ h \in DOMAIN live /\ Put(h) /\ Log1(<<"puth", h>>)

DoGetLarge ==
    /\ Cardinality(DOMAIN big) < MAXBIG /\ HasHandle
    /\ \/ GetLarge(cfg.slab + 1, FreeHandle)
       \/ ~LargeFits(cfg.slab + 1) /\ UNCHANGED scvars
    /\ Log1(<<"getlarge", 1>>)

DoPutLarge(h) ==
    /\ h \in DOMAIN big /\ PutLarge(h) /\ Log1(<<"puth", h>>)

Next ==
    \/ \E o \in 0..cfg.omax : DoGet(o)
    \/ \E h \in Handles : DoPut(h) \/ DoPutLarge(h)
    \/ DoGetLarge

Spec == Init /\ [][Next]_vars

View == <<scvars, last>>
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

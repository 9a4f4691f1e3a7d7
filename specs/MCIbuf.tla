------------------------------- MODULE MCIbuf -------------------------------
(* One buffer; blocks of 4, 8, 16 units hold one unit less.                  *)
EXTENDS Ibuf, Json
CONSTANTS Start, MaxCap, Sizes
VARIABLES hist, last, nv, seen
vars == <<ibvars, hist, last, nv, seen>>
B == 1

Init ==
    /\ hdr = 1 /\ bufs = (B :> New(Start))
    /\ hist = <<>> /\ last = <<>> /\ nv = 0 /\ seen = <<>>
LogOp(op) == hist' = Append(hist, op) /\ last' = op

RECURSIVE Doubled(_, _)
Doubled(c, n) == IF c >= n THEN c ELSE Doubled(2 * c, n)
Target(n) == LET c == 2 * bufs[B].cap IN
             Doubled(IF c < Start THEN Start ELSE c, Used(B) + n)
BlockFor(n) == CHOOSE c \in {3, 7, 15, 31, 63} :
    c >= n /\ \A d \in {3, 7, 15, 31, 63} : d >= n => c <= d
(* The written bytes: seen is the history of the whole stream.              *)
Put(n) == seen' = Join(seen, <<nv, n>>) /\ nv' = (nv + n + 3) % Mod

DoReserve(n) ==
    /\ Target(n) <= MaxCap
    /\ Reserve(B, n, BlockFor(Target(n)), <<BlockFor(Target(n)), 0>>)
    /\ LogOp(<<"reserve", n>>) /\ UNCHANGED <<nv, seen>>
DoWrite(n) ==
    /\ n <= Unused(B) /\ Write(B, nv, n) /\ Put(n)
    /\ LogOp(<<"write", n>>)
DoAlloc(n) ==
    /\ Target(n) <= MaxCap
    /\ Alloc(B, nv, n, BlockFor(Target(n)), <<BlockFor(Target(n)), 0>>)
    /\ Put(n) /\ LogOp(<<"alloc", n>>)
DoConsume(n) ==
    /\ n <= Used(B) /\ Eat(B, n) /\ LogOp(<<"consume", n>>)
    /\ UNCHANGED <<nv, seen>>
DoDiscard(n) ==
    /\ n <= Used(B) /\ Discard(B, n) /\ LogOp(<<"discard", n>>)
    /\ seen' = DropLast(seen, n) /\ UNCHANGED nv
DoShrink ==
    /\ LET c == BlockFor(IF Used(B) > Start THEN Used(B) ELSE Start) IN
       Shrink(B, c, IF c = bufs[B].cap THEN bufs[B].at ELSE <<c, 0>>)
    /\ LogOp(<<"shrink">>) /\ UNCHANGED <<nv, seen>>
DoReset == Reset(B) /\ LogOp(<<"reset">>) /\ seen' = <<>> /\ UNCHANGED nv

Next ==
    \/ \E n \in Sizes : DoReserve(n) \/ DoWrite(n) \/ DoAlloc(n)
                        \/ DoConsume(n) \/ DoDiscard(n)
    \/ bufs[B].at # <<>> /\ (DoShrink \/ DoReset)

Spec == Init /\ [][Next]_vars
(* The content is the newest part of what was written and not discarded.    *)
Fifo == Used(B) <= LenOf(seen) /\
        Canon(bufs[B].q) = Canon(DropFirst(seen, LenOf(seen) - Used(B)))
View == <<bufs[B].cap, bufs[B].pos, Used(B), last>>
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

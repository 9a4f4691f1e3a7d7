------------------------------ MODULE TraceMt -------------------------------
(* Traces of concurrent executions: some steps consume no event, so what     *)
(* counts is how far the trace has been explained.                           *)
EXTENDS TraceLib
MtInit == l = 1 /\ TLCSet(1, 1)
MtConsume == l' = l + 1 /\ TLCSet(1, Larger(TLCGet(1), l + 1))
(* A thread that runs while the others stand still finishes its operation.   *)
MtWaits == /\ Ev.op = "waits"
           /\ Chk("P01", "an operation waits for another thread", FALSE)
MtAccepted ==
    \/ TLCGet(1) = Len(Log) + 1
    \/ PrintT(<<"STUCK", TLCGet(1), Len(Log)>>) /\ FALSE
=============================================================================

------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Shared by every trace specification.  A trace is an ndjson file whose    *)
(* records were logged by a driver that executed the real library.  One     *)
(* record is consumed per step.  `Chk' is a named conformance conjunct: it  *)
(* belongs to a property (or to "core", the part of the behaviour every     *)
(* property of the module depends on) and is enforced when that property is *)
(* the one being decided.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE l          \* position in the trace

Log == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

Enforced(p) == p = "core" \/ Prop = "ALL" \/ p = Prop

Chk(p, name, cond) ==
    IF ~Enforced(p) THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", l, p, name>>) /\ FALSE

(* The same for observations that only matter for a set of properties.      *)
ChkAny(ps, name, cond) ==
    IF \A p \in ps : ~Enforced(p) THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", l, Prop, name>>) /\ FALSE

HasEvent == l <= Len(Log)
Ev == Log[l]
(* The world is destroyed: nothing is left of it in the system's heap.      *)
Gone(ps) == /\ Ev.op = "gone"
            /\ ChkAny(ps, "memory of the system is not given back",
                      Ev.heap = 0)
Consume == l' = l + 1
TraceAccepted ==
    \/ TLCGet("stats").diameter - 1 = Len(Log)
    \/ PrintT(<<"STUCK", TLCGet("stats").diameter, Len(Log)>>) /\ FALSE

Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
CeilDiv(a, b) == (a + b - 1) \div b
=============================================================================

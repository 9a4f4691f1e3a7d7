------------------------------ MODULE TraceLifo ------------------------------
(* L01: every recorded history is one of the specification's.                *)
EXTENDS Lifo, TraceMt
tvars == <<stack, pend, l>>

TInit == MtInit /\ stack = <<>> /\ pend = <<>>
TReset == /\ Ev.op = "init" /\ stack' = <<>>
          /\ pend' = [t \in 0..Ev.thr |-> Idle]
TCall == Ev.op = "call"
         /\ \E r \in {<<Ev.t, Ev.f, Ev.e>>} : Call(r[1], r[2], r[3])
TRet == /\ Ev.op = "ret" /\ pend[Ev.t].done
        /\ Chk("L01", "result of an operation", pend[Ev.t].r = Ev.r)
        /\ \E t \in {Ev.t} : Return(t)
(* An element pushed and popped again and again without any interruption.    *)
TSpin == /\ Ev.op = "spin" /\ Chk("L01", "pushed is popped", Ev.bad = 0)
         /\ UNCHANGED <<stack, pend>>
TScript == (Ev.op = "script" \/ MtWaits) /\ UNCHANGED <<stack, pend>>
(* It is enough to let an operation take effect just before some return.     *)
TEffect == /\ Ev.op = "ret" /\ \E t \in DOMAIN pend : Effect(t)
           /\ UNCHANGED l
TNext == HasEvent /\ \/ (TReset \/ TCall \/ TRet \/ TSpin \/ TScript) /\ MtConsume
                     \/ TEffect
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

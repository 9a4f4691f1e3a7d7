----------------------------- MODULE TraceQuota ------------------------------
(* Q01: the quota itself.  Q02: lessors.                                     *)
EXTENDS Quota, Big, TraceMt
tvars == <<qvars, l>>

TInit == /\ MtInit /\ total = Zero /\ used = Zero /\ les = <<>> /\ pend = <<>>
         /\ limits = [max |-> Zero, min |-> Zero]
TReset ==
    /\ Ev.op = "init" /\ total' = Unit(BigOf(Ev.n)) /\ used' = Zero
    /\ limits' = [max |-> BigOf(Ev.max), min |-> BigOf(Ev.min)]
    /\ les' = [t \in 0..Ev.thr |-> NoLessor]
    /\ pend' = [t \in 0..Ev.thr |-> Idle]
TCreate ==
    /\ Ev.op = "lcreate"
    /\ Chk("Q02", "a new lessor", BigOf(Ev.leased) = Zero
                                  /\ BigOf(Ev.avail) = Zero)
    /\ \E t \in {Ev.t} : Create(t)
TCall == Ev.op = "call"
         /\ \E r \in {<<Ev.t, Ev.f, BigOf(Ev.n)>>} : Call(r[1], r[2], r[3])
OfLessor(f) == f \in {"lease", "unlease", "ldestroy"}
TRet ==
    /\ Ev.op = "ret"
    /\ \E t \in {Ev.t} :
        /\ pend[t].done
        /\ \E p \in {IF OfLessor(pend[t].f) THEN "Q02" ELSE "Q01"} :
            /\ Chk(p, "granted or refused", pend[t].ok = Ev.ok)
            /\ Chk(p, "returned amount", pend[t].r = BigOf(Ev.n))
        /\ pend[t].f = "both" =>
            Chk("Q01", "usage", pend[t].m = BigOf(Ev.m))
        /\ OfLessor(pend[t].f) =>
            /\ Chk("Q02", "leased", les[t].leased = BigOf(Ev.leased))
            /\ Chk("Q02", "available", Spare(t) = BigOf(Ev.avail))
        /\ Return(t)
TScript == (Ev.op = "script" \/ MtWaits) /\ UNCHANGED qvars

(* What a lessor held when the operation of the thread returned.             *)
RECURSIVE RetOf(_, _)
RetOf(t, i) == IF Log[i].op = "ret" /\ Log[i].t = t THEN Log[i]
               ELSE RetOf(t, i + 1)
HeldAfter(t) == LET e == RetOf(t, l)
                IN BigAdd(BigOf(e.leased), BigOf(e.avail))
Change(t) == IF Leq(les[t].held, HeldAfter(t))
             THEN Sub(HeldAfter(t), les[t].held)
             ELSE Sub(les[t].held, HeldAfter(t))
(* When lessors are not what is decided, they do what they do.               *)
Loose(t) ==
    LET e == RetOf(t, l) IN
    /\ ~Enforced("Q02") /\ Takes(t, pend[t].f) /\ OfLessor(pend[t].f)
    /\ used' = Add(Sub(used, les[t].held), HeldAfter(t)) /\ Leq(used', total)
    /\ les' = [les EXCEPT ![t].held = HeldAfter(t), ![t].leased = BigOf(e.leased)]
    /\ Done(t, 1, Zero, Zero) /\ UNCHANGED <<total, limits>>
TEffect ==
    /\ Ev.op = "ret"
    /\ \E t \in DOMAIN pend :
        \/ Effect(t)
        \/ Loose(t)
        \/ Takes(t, "lease") /\ \E d \in {Change(t)} : Lease(t, d)
        \/ Takes(t, "unlease") /\ \E d \in {Change(t)} : EndLease(t, d)
    /\ UNCHANGED l
TNext == HasEvent /\ \/ (TReset \/ TCall \/ TRet \/ TCreate \/ TScript)
                        /\ MtConsume
                     \/ TEffect
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

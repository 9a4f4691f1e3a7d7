----------------------------- MODULE TraceArena ------------------------------
(* A01 *)
EXTENDS Arena, TraceMt
VARIABLE cfg    \* what the arenas ask the system for
tvars == <<avars, cfg, l>>

TInit == /\ MtInit /\ total = 0 /\ used = 0 /\ ar = <<>> /\ slabs = <<>>
         /\ pend = <<>> /\ cfg = <<>>
TReset ==
    /\ Ev.op = "init" /\ total' = Ev.total /\ used' = 0
    /\ ar' = [a \in 1..2 |-> NoArena] /\ slabs' = <<>>
    /\ pend' = [t \in 0..Ev.thr |-> Idle]
    /\ cfg' = [mad |-> Ev.mad, quiet |-> {}, kinds |-> {},
                prot |-> {}]
TCreate ==
    /\ Ev.op = "create"
    /\ Chk("A01", "creation", (Ev.rc = 0) = (Ev.fault = 0))
    /\ IF Ev.rc # 0 THEN UNCHANGED avars
       ELSE /\ \E r \in {<<Ev.a, Ev.pre, Ev.slab>>} : Create(r[1], r[2], r[3])
            /\ \E n \in {ar'} :
                /\ Chk("A01", "slab size",
                       Ev.slabsize = n[Ev.a].slab * 1024)
                /\ Chk("A01", "preallocation",
                       Ev.prealloc = n[Ev.a].pre * n[Ev.a].slab
                       /\ Ev.mapped = 1 /\ Ev.al = 1)
            /\ Chk("A01", "nothing is used", Ev.used = 0)
    /\ cfg' = [cfg EXCEPT !.quiet = IF Ev.quiet = 1 THEN @ \cup {Ev.a}
                                    ELSE @ \ {Ev.a},
                          !.kinds = @ \cup {Ev.shared}]
TCall ==
    /\ Ev.op = "call"
    /\ Ev.f = "unmap" => Chk("A01", "content of a slab", Ev.same = 1)
    /\ \E r \in {<<Ev.t, Ev.f, Ev.a, Ev.s>>} : Call(r[1], r[2], r[3], r[4])
    /\ UNCHANGED cfg
TRet ==
    /\ Ev.op = "ret"
    /\ \E t \in {Ev.t} :
        /\ pend[t].at = "done"
        /\ Chk("A01", "result", pend[t].r = Ev.r)
        /\ (pend[t].f = "map" /\ Ev.r # 0) =>
            /\ Chk("A01", "memory of a slab", Ev.mapped = 1)
            /\ Chk("A01", "alignment", Ev.al = 1)
            /\ Chk("A01", "slabs overlap",
                   \A s \in Known \ {Ev.r} :
                    Apart(slabs[s].pg, ar[slabs[s].a].slab \div 4,
                          Ev.pg, ar[pend[t].a].slab \div 4))
            /\ Chk("A01", "slab is in use",
                   Ev.r \in Known => ~slabs[Ev.r].out
                                     /\ slabs[Ev.r].a = pend[t].a)
        /\ \E pg \in {IF pend[t].f = "map" THEN Ev.pg ELSE 0} : Return(t, pg)
    /\ UNCHANGED cfg
PreAll(S) == (IF 1 \in S THEN (ar[1].pre * ar[1].slab) \div 4 ELSE 0)
             + (IF 2 \in S THEN (ar[2].pre * ar[2].slab) \div 4 ELSE 0)
(* Nobody is inside a call.                                                  *)
TSum ==
    /\ Ev.op = "sum"
    /\ Chk("A01", "used by the arena",
           \A a \in 1..2 : Ev.used[a] = ar[a].made * ar[a].slab)
    /\ Chk("A01", "quota", Ev.qused = used)
    /\ Chk("A01", "memory taken from the system",
           Ev.pages = Pages(1) + Pages(2) /\ Ev.bad = 0)
    /\ Chk("A01", "kind of memory", /\ Ev.shar > 0 => 1 \in cfg.kinds
                                    /\ Ev.priv > 0 => 0 \in cfg.kinds)
    /\ Chk("A01", "memory that is not dumped",
           Ev.quiet = (IF cfg.mad = 0 THEN 0
                       ELSE (IF 1 \in cfg.quiet THEN Pages(1) ELSE 0)
                            + (IF 2 \in cfg.quiet THEN Pages(2) ELSE 0)))
    /\ Chk("A01", "memory that is read only", Ev.ro = PreAll(cfg.prot))
    /\ UNCHANGED <<avars, cfg>>
(* Only what is known can be there, and only if the system has it.           *)
TFeature ==
    /\ Ev.op = "feature" /\ UNCHANGED <<avars, cfg>>
    /\ Chk("A01", "feature", Ev.r = 1 =>
           Ev.k = 0 /\ Ev.fault = 0 /\ cfg.mad = 1)
    /\ Chk("A01", "feature", cfg.mad = 1 /\ Ev.k = 0 /\ Ev.fault = 0 => Ev.r = 1)
TProtect == /\ Ev.op = "protect" /\ UNCHANGED avars
            /\ \E a \in {Ev.a} : cfg' = [cfg EXCEPT !.prot = @ \cup {a}]
TDestroy == /\ Ev.op = "destroy" /\ (\E a \in {Ev.a} : Destroy(a))
            /\ \E a \in {Ev.a} : cfg' = [cfg EXCEPT !.prot = @ \ {a}]
TScript == (Ev.op = "script" \/ MtWaits) /\ UNCHANGED <<avars, cfg>>

RECURSIVE RetOf(_, _)
RetOf(t, i) == IF Log[i].op = "ret" /\ Log[i].t = t THEN Log[i]
               ELSE RetOf(t, i + 1)
TEffect ==
    /\ Ev.op = "ret"
    /\ \E t \in DOMAIN pend :
        \/ MapCached(t) \/ MapCharge(t) \/ Unmap(t) \/ Look(t) \/ QUse(t)
        \/ QFree(t)
        \/ /\ Takes(t, "map", "make") /\ RetOf(t, l).fault > 0 /\ MapFail(t)
        \/ Takes(t, "map", "make") /\ \E s \in {RetOf(t, l).r} : MapMake(t, s)
    /\ UNCHANGED <<l, cfg>>
TNext == HasEvent /\ \/ (TReset \/ TCreate \/ TCall \/ TRet \/ TSum \/ TProtect
                         \/ TDestroy \/ TScript
                         \/ TFeature) /\ MtConsume
                     \/ TEffect
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

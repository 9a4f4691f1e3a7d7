--------------------------- MODULE TraceSlabCache ---------------------------
(***************************************************************************)
(* Trace validation: every logged call of the real slab cache has to be an  *)
(* action of SlabCache with the logged result.                              *)
(*   C01: blocks are aligned, big enough, disjoint, keep their content      *)
(*   C02: coalescing, retention, accounting                                 *)
(***************************************************************************)
EXTENDS SlabCache, TraceLib

tvars == <<scvars, l>>

NoCfg == [slab |-> 1, order0 |-> 1, omax |-> 0, hdr |-> 0]

TInit ==
    /\ l = 1
    /\ cfg = NoCfg /\ live = <<>> /\ free = {} /\ spare = 0 /\ big = <<>>
    /\ mapped = 0 /\ quota = 0

(* The observable accounting after the operation (primed state).            *)
StatsOk ==
    /\ Chk("C02", "used", Used' = Ev.used)
    /\ Chk("C02", "total", Total' = Ev.total)
    /\ Chk("C02", "quota_used", QuotaUsed' = Ev.qused)
    /\ Chk("C02", "order used", \A o \in 0..cfg'.omax : (UsedAt(o))' = Ev.ou[o + 1])
    /\ Chk("C02", "order total", \A o \in 0..cfg'.omax : (TotalAt(o))' = Ev.ot[o + 1])

TReset ==
    /\ Ev.op = "init"
    /\ cfg' = [slab |-> Ev.slab, order0 |-> Ev.order0, omax |-> Ev.omax,
               hdr |-> Ev.hdr]
    /\ Chk("core", "geometry", Ev.order0 * Pow2(Ev.omax) = Ev.slab)
    /\ live' = <<>> /\ free' = {} /\ spare' = 0 /\ big' = <<>> /\ mapped' = 0
    /\ quota' = Ev.quota

GetOrder == IF Ev.op = "getord" THEN Ev.order ELSE OrderOf(Ev.size)

(* A request of a block of the buddy system.                                *)
TGet ==
    /\ Ev.op \in {"get", "getord"}
    /\ GetOrder <= cfg.omax
    /\ LET o == GetOrder IN
       IF Ev.h = 0
       THEN /\ Chk("C02", "spurious failure", GetFailOk(o) \/
                   (Ev.fault > 0 /\ {f \in free : f.o >= o} = {} /\ spare = 0
                    /\ Held = mapped))
            /\ UNCHANGED scvars
       ELSE /\ Chk("C01", "size", Ev.bsize = Size(o))
            /\ Chk("C01", "fresh handle", Ev.h \notin DOMAIN live \cup DOMAIN big)
            /\ Chk("C01", "overlap or misaligned", GetSafe(Ev.s, Ev.off, o))
            /\ Chk("C02", "policy", GetPolicy(Ev.s, Ev.off, o))
            /\ Chk("C02", "quota exceeded",
                   (Ev.s \in Busy \/ spare > 0 \/ CanMap(quota)))
            /\ GetEffect(Ev.s, Ev.off, o, Ev.h)
    /\ StatsOk

TGetLarge ==
    /\ \/ Ev.op = "getlarge"
       \/ Ev.op = "get" /\ OrderOf(Ev.size) > cfg.omax
    /\ IF Ev.h = 0
       THEN /\ Chk("C02", "spurious failure", Ev.fault > 0 \/ ~LargeFits(Ev.size))
            /\ UNCHANGED scvars
       ELSE /\ Chk("C01", "size", Ev.bsize >= Ev.size + cfg.hdr)
            /\ Chk("C02", "quota exceeded", LargeFits(Ev.size))
            /\ GetLarge(Ev.size, Ev.h)
    /\ StatsOk

(* No block can be that large: the request fails and changes nothing.       *)
TGetHuge ==
    /\ Ev.op = "gethuge"
    /\ Chk("C01", "impossible request served", Ev.h = 0)
    /\ UNCHANGED scvars
    /\ StatsOk

TPut ==
    /\ Ev.op = "put"
    /\ Chk("C01", "content damaged", Ev.ok = 1)
    /\ Put(Ev.h) \/ PutLarge(Ev.h)
    /\ StatsOk

TCheck ==
    /\ Ev.op = "check"
    /\ Chk("C01", "content damaged", Ev.ok = 1)
    /\ UNCHANGED scvars

TRealSize ==
    /\ Ev.op = "realsize"
    /\ Chk("C01", "real size", Ev.res = RealSize(Ev.size))
    /\ UNCHANGED scvars

TQuota ==
    /\ Ev.op = "quota"
    /\ Chk("C02", "quota_set", (Ev.res >= 0) = (Ev.units >= QuotaUsed))
    /\ SetQuota(Ev.units)
    /\ StatsOk

(* Destroying the cache hands every slab to the arena, live blocks or not.  *)
TDestroy ==
    /\ Ev.op = "destroy"
    /\ Chk("C02", "slabs back in the arena", Ev.avail = mapped)
    /\ Chk("C02", "quota after destroy",
           Ev.qused = mapped * (cfg.slab \div Unit))
    /\ UNCHANGED scvars
TGone == Gone({"C02"}) /\ UNCHANGED scvars

TNext ==
    /\ HasEvent
    /\ TReset \/ TGet \/ TGetLarge \/ TGetHuge \/ TPut \/ TCheck \/ TRealSize
       \/ TQuota \/ TDestroy \/ TGone
    /\ Consume

TSpec == TInit /\ [][TNext]_tvars
Inv == Disjoint /\ Aligned /\ SpareBound
=============================================================================

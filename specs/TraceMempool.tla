---------------------------- MODULE TraceMempool ----------------------------
(* M01: placement and content of objects.  M02: slab policy and accounting.  *)
EXTENDS Mempool, TraceLib

VARIABLE hdr     \* bytes of a slab that are not available for objects
tvars == <<mpvars, hdr, l>>

TInit == l = 1 /\ pools = <<>> /\ slabs = <<>> /\ objs = <<>> /\ hdr = 0

(* The largest object of a pool, for slabs of 2^(11 + i) bytes: at least four *)
(* fit into one, aligned as pointers are.                                    *)
TReset ==
    /\ Ev.op = "init" /\ pools' = <<>> /\ slabs' = <<>> /\ objs' = <<>>
    /\ UNCHANGED hdr
    /\ Chk("M01", "largest object", \A i \in 1..Len(Ev.max) :
           LET m == Ev.max[i] IN
           m > 0 /\ m % 8 = 0 /\ m <= (2 ^ (11 + i) - Ev.hdr) \div 4)

RECURSIVE Pow2Div(_)
Pow2Div(n) == IF n % 2 = 1 THEN 1 ELSE 2 * Pow2Div(n \div 2)

StatsOk(p) ==
    /\ Chk("M02", "objcount", Count(p)' = Ev.cnt)
    /\ Chk("M02", "used", Count(p)' * pools[p].objsize = Ev.used)
    /\ Chk("M02", "statistics", Ev.more = <<Ev.used, Ev.cnt,
                               pools[p].objsize, pools[p].slabsize, 1>>)
    /\ Chk("M02", "slabcount", SlabCount(p)' = Ev.nslabs)
    /\ Chk("M02", "total", PoolTotal(p)' = Ev.total)
    /\ Chk("M02", "available total",
           SlabCount(p)' * (pools[p].slabsize - hdr) = Ev.avail)
    /\ Chk("M02", "slab cache used", AllTotal' = Ev.cused)

TCreate ==
    /\ Ev.op = "create"
    /\ Chk("M01", "capacity of a slab",
           Ev.cap > 0 /\ Ev.cap * Ev.objsize <= Ev.slabsize)
    /\ Create(Ev.p, Ev.objsize, Ev.slabsize, Ev.cap)
    /\ hdr' = Ev.hdr

TAlloc ==
    /\ Ev.op = "alloc"
    /\ \E p \in {Ev.p} :
       /\ IF Ev.h = 0
          THEN /\ Chk("M01", "failed though there is room",
                      NoRoom(p) /\ Ev.probe = 0)
               /\ UNCHANGED mpvars
          ELSE /\ Chk("M01", "handle", Ev.h \notin DOMAIN objs)
               /\ Chk("M01", "overlap or out of slab",
                      PlaceSafe(p, Ev.s, Ev.off))
               /\ Chk("M01", "alignment",
                      Ev.off % Pow2Div(pools[p].objsize) = 0)
               /\ Chk("M02", "slab choice", SlabPolicy(p, Ev.s))
               /\ AllocEffect(p, Ev.s, Ev.off, Ev.h)
       /\ StatsOk(p)
    /\ UNCHANGED hdr

TFree ==
    /\ Ev.op = "free"
    /\ Chk("M01", "content damaged", Ev.ok = 1)
    /\ \E p \in {objs[Ev.h].p} : Free(Ev.h) /\ StatsOk(p)
    /\ UNCHANGED hdr

TRuns ==
    /\ Ev.op = "runs"
    /\ \E p \in {Ev.p} :
       /\ Chk("M01", "overlap or out of slab", RunsSafe(p, slabs[p], Ev.q))
       /\ Chk("M02", "slab choice", RunsAllowed(p, slabs[p], Ev.q))
       /\ AllocRuns(p, Ev.q)
       /\ Chk("M01", "failed though there is room",
              Ev.fail = 1 => Ev.probe = 0 /\ \A s \in DOMAIN slabs'[p] :
                                        slabs'[p][s].st = "full")
       /\ StatsOk(p)
    /\ UNCHANGED hdr

TFreeRuns ==
    /\ Ev.op = "freeruns"
    /\ Chk("M01", "content damaged", Ev.ok = 1)
    /\ \E p \in {Ev.p} : FreeRuns(p, Ev.q) /\ StatsOk(p)
    /\ UNCHANGED hdr

TCheck ==
    /\ Ev.op = "check"
    /\ Chk("M01", "content damaged", Ev.ok = 1)
    /\ UNCHANGED <<mpvars, hdr>>

TDestroy ==
    /\ Ev.op = "destroy"
    /\ Destroy(Ev.p) /\ UNCHANGED hdr
    /\ Chk("M02", "slabs returned on destroy", AllTotal' = Ev.cused)
    /\ Chk("M02", "destroyed pool is initialized", Ev.init = 0)
TGone == Gone({"M02"}) /\ UNCHANGED <<mpvars, hdr>>

TNext ==
    /\ HasEvent
    /\ TReset \/ TCreate \/ TAlloc \/ TFree \/ TRuns \/ TFreeRuns \/ TCheck \/ TDestroy \/ TGone
    /\ Consume

TSpec == TInit /\ [][TNext]_tvars
Inv == SlabsOwned
=============================================================================

--------------------------- MODULE TraceLsregion ---------------------------
(* W01: places, content, collection and accounting.  W02: flushing.          *)
(* N02: shadow state in checked builds.                                      *)
EXTENDS Lsregion, TraceLib

VARIABLE quota    \* regular slabs ever taken from the arena
tvars == <<lsvars, quota, l>>
N == 2            \* savepoints

TInit == /\ l = 1 /\ ls = <<>> /\ cached = 0 /\ resv = <<>> /\ live = <<>>
         /\ gone = 0 /\ geo = [slab |-> 0, hdr |-> 0, checked |-> FALSE]
         /\ quota = 0
TReset ==
    /\ Ev.op = "init"
    /\ ls' = <<>> /\ cached' = 0 /\ resv' = <<>> /\ live' = <<>> /\ gone' = 0
    /\ geo' = [slab |-> Ev.slab, hdr |-> Ev.hdr, checked |-> Ev.checked = 1]
    /\ quota' = 0

Unit(n) == 1024 * ((n + 1023) \div 1024)
Regular(q) == Cardinality({i \in 1..Len(q) : q[i].sz <= geo.slab})
RECURSIVE LargeQuota(_)
LargeQuota(q) == IF q = <<>> THEN 0
                 ELSE (IF Head(q).sz > geo.slab THEN Unit(Head(q).sz) ELSE 0)
                      + LargeQuota(Tail(q))
Core ==
    /\ quota' = Larger(quota, Regular(ls') + cached')
    /\ Chk("W01", "used", Used' = Ev.used)
    /\ Chk("W01", "total", Total' = Ev.total)
    /\ ~geo.checked =>
        Chk("W01", "quota", quota' * geo.slab + LargeQuota(ls') = Ev.quota)
Content == Chk("W01", "content damaged", Ev.ok = 1)
Shadow ==
    "pb" \in DOMAIN Ev =>
        /\ Chk("N02", "byte before is accessible", Ev.pb = 1)
        /\ Chk("N02", "byte after is accessible", Ev.pa = 1)
        /\ Chk("N02", "own byte is not accessible", Ev.pin = 0)

Pad(x, al) == (al - (x % al)) % al
Need(n, al) == n + al - 1
End == Newest.at[2] + Newest.used
Fits(n, al) ==
    IF geo.checked THEN resv # <<>>
    ELSE ls # <<>> /\ Newest.at # <<>> /\ n + Pad(End, al) <= Unused

(* The data of a regular slab begin behind its header.                      *)
StartOk(start, n, al) ==
    ~Fits(n, al) /\ ~geo.checked /\ ~IsLarge(Need(n, al)) =>
        Chk("W01", "place in a new slab",
            (start[2] - geo.hdr) % geo.slab = 0
            /\ \A i \in 1..Len(ls) : ls[i].at # start)
Place(z, off, n, al) ==
    /\ Chk("W01", "alignment", off % al = 0)
    /\ Chk("W01", "overlap", PlaceFree(z, off, n))
    /\ Fits(n, al) /\ ~geo.checked =>
        Chk("W01", "position", z = Newest.at[1] /\ off = End + Pad(End, al))
    /\ Fits(n, al) /\ geo.checked =>
        Chk("W01", "position", <<z, off>> = Newest.at)

NoMemory(n, al) ==
    /\ Chk("W01", "refused though it fits", ~Fits(n, al))
    /\ Chk("W01", "refused though there is memory", Ev.probe = 0
           /\ (cached = 0 \/ IsLarge(Need(n, al))))
    /\ Chk("W01", "refused though reserved", resv = <<>>)
    /\ UNCHANGED lsvars

TAlloc ==
    /\ Ev.op = "alloc" /\ Shadow
    /\ IF Ev.h = 0 THEN NoMemory(Ev.n, Ev.al)
       ELSE \E eff \in {Ev.used - Used} :
            /\ Place(Ev.z, Ev.off, Ev.n, Ev.al)
            /\ Chk("W01", "padding", eff >= Ev.n /\ eff - Ev.n < Ev.al)
            /\ StartOk(<<Ev.z, Ev.off - (eff - Ev.n)>>, Ev.n, Ev.al)
            /\ Alloc(Ev.h, Ev.z, Ev.off, Ev.n, eff, Need(Ev.n, Ev.al), Ev.id,
                     Fits(Ev.n, Ev.al), N)
    /\ Core

TReserve ==
    /\ Ev.op = "reserve"
    /\ IF Ev.okp = 0 THEN NoMemory(Ev.n, Ev.al)
       ELSE /\ Place(Ev.z, Ev.off, Ev.n, Ev.al)
            /\ StartOk(<<Ev.sz, Ev.soff>>, Ev.n, Ev.al)
            /\ Chk("W01", "unaligned address",
                   Ev.sz = Ev.z /\ Ev.off = Ev.soff + Pad(Ev.soff, Ev.al))
            /\ Reserve(Ev.n, Need(Ev.n, Ev.al), Fits(Ev.n, Ev.al), N,
                       <<Ev.sz, Ev.soff>>)
    /\ Core

THuge ==
    /\ Ev.op = "huge"
    /\ Chk("W01", "impossible request is served", Ev.okp = 0)
    /\ UNCHANGED lsvars
    /\ Core

TGc ==
    /\ Ev.op = "gc" /\ Content
    /\ Chk("N02", "collected memory is accessible",
           geo.checked => Ev.ndead = 0)
    /\ Gc(Ev.id)
    /\ Core

TFlush ==
    /\ Ev.op = "flush" /\ Content
    /\ Chk("W02", "vectors", Ev.vecs = Vectors(Ev.k, Ev.max))
    /\ Chk("W02", "number of vectors", Ev.cnt = Len(Ev.vecs))
    /\ Chk("W02", "flushed id", Ev.id = FlushedId(Ev.k, Ev.max))
    /\ Flush(Ev.k, Ev.max)
    /\ Core

TCheck == Ev.op = "check" /\ Content /\ UNCHANGED lsvars /\ Core

TDestroy ==
    /\ Ev.op = "destroy" /\ Content
    /\ ~geo.checked =>
        /\ Chk("W01", "quota is not released", Ev.quota = quota * geo.slab)
        /\ Chk("W01", "slabs are not returned", Ev.have = quota)
    /\ ls' = <<>> /\ cached' = 0 /\ resv' = <<>> /\ live' = <<>> /\ quota' = 0
    /\ UNCHANGED <<gone, geo>>
TGone == Gone({"W01", "N01"}) /\ UNCHANGED <<lsvars, quota>>

TNext ==
    /\ HasEvent
    /\ TReset \/ TAlloc \/ TReserve \/ THuge \/ TGc \/ TFlush \/ TCheck
       \/ TDestroy \/ TGone
    /\ Consume

TSpec == TInit /\ [][TNext]_tvars
=============================================================================

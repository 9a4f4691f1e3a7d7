---------------------------- MODULE TraceChecked ----------------------------
(* N01: contract of the checked slab cache and mempool.  N02: detection.      *)
EXTENDS Checked, TraceLib
tvars == <<cvars, l>>

TInit == l = 1 /\ pools = <<>> /\ objs = <<>> /\ env = [hdr |-> 0, page |-> 1, arenas |-> <<>>]

State ==
    /\ \A p \in DOMAIN pools' : LET r == Ev.pools[p] IN
       /\ Chk("N01", "object count", \E n \in {Count(p)'} :
              r[1] = n /\ r[4] = n /\ r[2] = n * pools'[p] /\ r[5] = r[2])
       /\ Chk("N01", "object size", r[3] = pools'[p])
    /\ \A c \in 1..Len(Ev.caches) :
       Chk("N01", "slab cache used", Ev.caches[c] = CacheUsed(c)')

TReset == /\ Ev.op = "init"
          /\ pools' = [p \in 1..Len(Ev.pools) |-> 0] /\ objs' = <<>>
          /\ env' = [hdr |-> Ev.hdr, page |-> Ev.page, arenas |-> Ev.arenas]
          /\ Chk("N01", "slab size", Ev.arenas[1] = 65536 /\ Ev.arenas[2] = 131072)
          /\ State
TCreate == /\ Ev.op = "create"
           /\ \E r \in {<<Ev.p, Ev.size>>} : Create(r[1], r[2])
           /\ State
Shadow ==
    /\ Chk("N02", "byte before is accessible", Ev.pb = 1)
    /\ Chk("N02", "byte after is accessible", Ev.pa = 1)
    /\ Chk("N02", "own byte is not accessible", Ev.pin = 0)
TAlloc ==
    /\ Ev.op = "alloc"
    /\ LET n == pools[Ev.p] IN
       /\ Chk("N01", "overlap", Free(Ev.z, Ev.off, n))
       /\ Chk("N01", "alignment", Ev.off % ObjAlign(n) = 0)
       /\ Chk("N02", "more aligned than promised",
              Ev.off % (2 * ObjAlign(n)) # 0)
       /\ Shadow
       /\ \E r \in {<<Ev.h, Ev.p, Ev.z, Ev.off>>} :
            Take(r[1], r[2], r[3], r[4], n)
    /\ UNCHANGED <<pools, env>>
    /\ State
TGet ==
    /\ Ev.op = "get"
    /\ LET n == Ev.cap + env.hdr IN
       /\ Chk("N01", "slab is too small", Ev.cap >= Ev.size)
       /\ Chk("N01", "real size", Ev.real = RealSize(Ev.size) /\ n = Ev.real)
       /\ Chk("N01", "slab of its data", Ev.rt = 1)
       /\ Chk("N01", "overlap", Free(Ev.z, Ev.off, n))
       /\ Chk("N01", "alignment", Ev.off % SlabAlign = 0)
       /\ Shadow
       /\ \E r \in {<<Ev.h, Cache(Ev.c), Ev.z, Ev.off, n>>} :
            Take(r[1], r[2], r[3], r[4], r[5])
    /\ UNCHANGED <<pools, env>>
    /\ State
TMap ==
    /\ Ev.op = "map"
    /\ LET n == env.arenas[Ev.x] IN
       /\ Chk("N01", "overlap", Free(Ev.z, Ev.off, n))
       /\ Chk("N01", "alignment", Ev.off % MapAlign = 0)
       /\ Shadow
       /\ \E r \in {<<Ev.h, Arena(Ev.x), Ev.z, Ev.off, n>>} :
            Take(r[1], r[2], r[3], r[4], r[5])
    /\ UNCHANGED <<pools, env>>
    /\ State
TFree ==
    /\ Ev.op = "free"
    /\ Chk("N01", "content damaged", Ev.ok = 1)
    /\ Chk("N02", "freed memory is accessible", Ev.ndead = 0)
    /\ \E h \in {Ev.h} : Give(h)
    /\ State
TMisuse ==
    /\ Ev.op = "misuse"
    /\ Chk("N02", "misuse is not noticed", Ev.noticed = 1)
    /\ UNCHANGED cvars
    /\ State
TCheck == /\ Ev.op = "check" /\ Chk("N01", "content damaged", Ev.ok = 1)
          /\ UNCHANGED cvars /\ State
TDestroy == /\ Ev.op = "destroy"
            /\ Chk("N01", "destroyed pool is initialized", Ev.init = 0)
            /\ \E p \in {Ev.p} : Destroy(p)
            /\ State
TGone == Gone({"N01"}) /\ UNCHANGED cvars

TNext == /\ HasEvent
         /\ TReset \/ TCreate \/ TAlloc \/ TGet \/ TFree \/ TMisuse \/ TCheck
            \/ TDestroy \/ TMap \/ TGone
         /\ Consume
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

----------------------------- MODULE TraceSmall -----------------------------
(* S02: chunks.  S03: accounting, waste, activation.  N02: checked builds.   *)
EXTENDS Small, TraceLib

VARIABLES gran, slab,
    shdr      \* bytes of a slab that are not available for chunks
tvars == <<smvars, gran, slab, shdr, l>>
par == <<gran, slab, shdr>>

Asan == classes = <<>>
TInit ==
    /\ l = 1 /\ gran = 1 /\ slab = 0 /\ shdr = 0
    /\ classes = <<>> /\ slabsz = <<>> /\ grp = <<>> /\ act = {}
    /\ cnt = <<>> /\ waste = <<>> /\ chunks = <<>>

ToSetOf(q) == {q[i] : i \in 1..Len(q)}

(* What small_stats and the slab cache report after the step.               *)
Pools == Ev.pools
TotalOf(q, h) == LET F(k) == q[k][3] * (slabsz'[q[k][1]] - h) IN
                 MapThenSumSet(F, 1..Len(q))
Observed ==
    IF classes' = <<>>
    THEN /\ Chk("S03", "used", Ev.used = LiveBytes')
         /\ Chk("S03", "objects", Ev.cnt = Cardinality(DOMAIN chunks'))
         /\ Chk("S03", "leased", Ev.leased = LiveBytes')
    ELSE
    /\ Chk("S03", "used", Ev.used = UsedBytes')
    /\ Chk("S03", "reported pools",
           {i \in 1..Len(classes') : cnt'[i] > 0 \/ waste'[i] > 0}
               \subseteq {Pools[k][1] : k \in 1..Len(Pools)})
    /\ \A k \in 1..Len(Pools) :
        \E i \in {Pools[k][1]} :
        /\ Chk("S03", "objects of a pool", Pools[k][2] = cnt'[i])
        /\ Chk("S03", "waste of a class", Pools[k][4] = waste'[i])
        /\ Chk("S03", "slabs of an empty pool",
               cnt'[i] = 0 => Pools[k][3] <= (IF i \in act' THEN 1 ELSE 0))
        /\ Chk("S03", "objects without slabs", cnt'[i] > 0 => Pools[k][3] > 0)
    /\ Chk("S03", "total", Ev.total = TotalOf(Pools, shdr'))
    /\ Chk("S03", "slab cache used", Ev.cused = TotalOf(Pools, 0) + LargeTaken')
    /\ Chk("S03", "active classes",
           IF "act" \in DOMAIN Ev THEN act' = ToSetOf(Ev.act) ELSE act' = act)

Content == Chk("S02", "content damaged", Ev.ok = 1)
Shadow(size) ==
    "pb" \in DOMAIN Ev =>
        /\ Chk("N02", "byte before is accessible", Ev.pb = 1)
        /\ Chk("N02", "byte after is accessible", Ev.pa = 1)
        /\ Chk("N02", "own byte is not accessible", Ev.pin = 0)

TReset ==
    /\ Ev.op = "init"
    /\ gran' = Ev.gran /\ slab' = Ev.slab /\ shdr' = Ev.hdr
    /\ \A i \in 1..Len(Ev.classes) :
        /\ Chk("S02", "class sizes increase",
               i = 1 \/ Ev.classes[i - 1] < Ev.classes[i])
        /\ Chk("S02", "class sizes are aligned", Ev.classes[i] % Ev.gran = 0)
    /\ Chk("S02", "minimal size", Ev.classes = <<>> \/ Ev.classes[1] >= Ev.min)
    /\ Setup(Ev.classes, Ev.slabs)
    /\ Observed

TAlloc ==
    /\ Ev.op = "alloc"
    /\ UNCHANGED par
    /\ \E i \in {ClassOf(Ev.size)}, sw \in {FALSE, TRUE} :
       /\ sw => i # 0 /\ Ev.ql < slab      \* memory has run out
       /\ ~Asan => Chk("S02", "routing", Ev.large = (IF i = 0 THEN 1 ELSE 0))
       /\ Chk("S03", "reported real size",
              Ev.real = IF i = 0 \/ Ev.h = 0 THEN Ev.real
                        ELSE classes[UsedPool(i, act)])
       /\ Chk("S03", "reported real size is too small", Ev.real >= Ev.size)
       /\ IF Ev.h = 0
          THEN /\ sw = FALSE
               /\ Chk("S02", "refused though there is memory",
                      /\ Ev.probe = 0
                      /\ IF Asan THEN Ev.ql < Ev.size + 1024
                         ELSE i # 0 => Ev.ql < slab)
               /\ Refuse(Ev.size)
          ELSE /\ Chk("S02", "handle", Ev.h \notin DOMAIN chunks)
               /\ Chk("S02", "overlap", PlaceFree(Ev.z, Ev.off,
                      IF i = 0 THEN Ev.size
                      ELSE classes[UsedPool(i, IF sw THEN Swept(act) ELSE act)]))
               /\ Chk("S02", "alignment",
                      IF i = 0 /\ ~Asan THEN Ev.off % 8 = 0
                      ELSE Ev.off % gran = 0)
               /\ Shadow(Ev.size)
               /\ IF i = 0
                  THEN /\ Chk("S02", "large chunk is too small",
                              Asan \/ Ev.got >= Ev.size)
                       /\ sw = FALSE
                       /\ AllocLarge(Ev.h, Ev.size, Ev.z, Ev.off, Ev.got)
                  ELSE AllocSmall(Ev.h, Ev.size, Ev.z, Ev.off, sw)
       /\ Observed

THuge ==
    /\ Ev.op = "huge"
    /\ Chk("S02", "impossible request is served", Ev.okp = 0)
    /\ UNCHANGED <<smvars, par>>
    /\ Observed

TFree ==
    /\ Ev.op = "free"
    /\ Content
    /\ Chk("N02", "freed memory is accessible", Ev.ndead = 0)
    /\ UNCHANGED par
    /\ chunks[Ev.h].own = 0 /\ ~Asan =>
        Chk("S03", "memory of a large chunk is released",
            Ev.got = -chunks[Ev.h].pool)
    /\ \E h \in {Ev.h} : Free(h)
    /\ Observed

TMisuse ==
    /\ Ev.op = "misuse"
    /\ Chk("N02", "misuse is not noticed", Ev.noticed = 1)
    /\ UNCHANGED <<smvars, par>>
    /\ Observed

TCheck ==
    /\ Ev.op = "check"
    /\ Content
    /\ UNCHANGED <<smvars, par>>
    /\ Observed

TDestroy ==
    /\ Ev.op = "destroy"
    /\ Chk("S03", "slabs returned on destroy", Ev.cused = 0)
    /\ classes' = <<>> /\ slabsz' = <<>> /\ grp' = <<>> /\ act' = {}
    /\ cnt' = <<>> /\ waste' = <<>> /\ chunks' = <<>>
    /\ UNCHANGED par
TGone == Gone({"S03", "N01"}) /\ UNCHANGED <<smvars, gran, slab, shdr>>

TNext ==
    /\ HasEvent
    /\ TReset \/ TAlloc \/ THuge \/ TFree \/ TMisuse \/ TCheck \/ TDestroy \/ TGone
    /\ Consume

TSpec == TInit /\ [][TNext]_tvars
Inv == WasteBounded
=============================================================================

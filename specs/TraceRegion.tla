---------------------------- MODULE TraceRegion ----------------------------
(* R01: stack discipline, content, accounting.  R02: reservation, alignment, *)
(* join and callbacks.  N02: shadow state in checked builds.                 *)
EXTENDS Region, TraceLib

tvars == <<rgvars, l>>

Regions == 1..2
TInit == l = 1 /\ regs = <<>> /\ live = <<>> /\ hdr = -1

TReset ==
    /\ Ev.op = "init"
    /\ regs' = [r \in Regions |-> Empty] /\ live' = <<>> /\ hdr' = Ev.hdr

Core(rr) ==
  \E r \in {rr} :        \* evaluates the argument before priming
    /\ Chk("R01", "used", Used(r)' = Ev.used)
    /\ Chk("R01", "total", Total(r)' = Ev.total)
    /\ Chk("R01", "slab cache used", AllTotal' = Ev.cused)
NoAllocCb == Chk("R02", "allocation callback", Ev.cbn = 0)
(* What region_used() says inside of a callback: the usage before the      *)
(* allocation, the usage after the truncation.                              *)
UsedInAllocCb(r) == Chk("R02", "usage inside the allocation callback",
                        Ev.cbu = Used(r))
UsedInTruncCb(to) == Chk("R02", "usage inside the truncation callback",
                         Ev.tbu = to)
NoTruncCb == Chk("R02", "truncation callback", Ev.tbn = 0)
Content == Chk("R01", "content damaged", Ev.ok = 1)
Shadow(size) ==
    "pb" \in DOMAIN Ev =>
        /\ Chk("N02", "byte before is accessible", Ev.pb = 1)
        /\ Chk("N02", "byte after is accessible", Ev.pa = 1)
        /\ Chk("N02", "own byte is not accessible", Ev.pin = 0)

(* Bytes asked from the newest block: room for any padding.                 *)
Need(size, al) == size + al - 1
Pad(x, al) == (al - (x % al)) % al

(* Is a new block needed?  (grown: how much the total has grown)            *)
BlockPolicy(r, size, al, grown) ==
    Blocked =>
        /\ Chk("R01", "total has shrunk", grown >= 0)
        /\ Chk("R01", "new block though the request fits",
               Need(size, al) <= Unused(r) => grown = 0)
        /\ Chk("R02", "no new block though the request does not fit",
               Need(size, al) > Unused(r) => grown - hdr >= Need(size, al))

(* Where the piece has to be.                                               *)
Placement(r, z, off, eff, size, al, grown) ==
    /\ Chk("R02", "alignment", off % al = 0)
    /\ Chk("R01", "padding", eff >= size /\ eff - size < al)
    /\ Chk("R01", "overlap", PlaceFree(r, z, off, size))
    /\ Blocked /\ grown = 0 /\ Newest(r).start # <<>> =>
        \E pos \in {Newest(r).start[2] + Newest(r).used} :
            /\ Chk("R01", "position", z = Newest(r).start[1]
                   /\ off = pos + Pad(pos, al) /\ eff = size + Pad(pos, al))
    /\ regs[r].resv # <<>> =>
        Chk("R02", "not at the reserved place",
            z = regs[r].resv[1].z /\ off = regs[r].resv[1].off /\ grown <= 0)
    /\ Blocked \/ Chk("R01", "padding is counted", eff = size)

TAlloc ==
    /\ Ev.op = "alloc"
    /\ Chk("R02", "reported size", Ev.size = Ev.want)
    /\ \E r \in {Ev.r} : \E eff \in {Ev.used - Used(r)},
          grown \in {IF Blocked THEN Ev.total - Total(r) ELSE 0} :
       /\ IF Ev.h = 0
          THEN /\ Chk("R01", "refused though there is memory", Ev.probe = 0)
               /\ Chk("R02", "refused within a reservation",
                      regs[r].resv = <<>>)
               /\ NoAllocCb
               /\ UNCHANGED rgvars
          ELSE /\ BlockPolicy(r, Ev.size, Ev.al, grown)
               /\ Placement(r, Ev.z, Ev.off, eff, Ev.size, Ev.al, grown)
               /\ Chk("R02", "allocation callback",
                      Ev.cbn = 1 /\ Ev.cbs = eff)
               /\ UsedInAllocCb(r)
               /\ Shadow(Ev.size)
               /\ Alloc(r, Ev.h, Ev.z, Ev.off, Ev.size, eff, grown)
       /\ NoTruncCb
       /\ Core(r)

TReserve ==
    /\ Ev.op = "reserve"
    /\ \E r \in {Ev.r} : \E grown \in {IF Blocked THEN Ev.total - Total(r) ELSE 0} :
       /\ IF Ev.okp = 0
          THEN /\ Chk("R01", "refused though there is memory", Ev.probe = 0)
               /\ UNCHANGED rgvars
          ELSE /\ Chk("R02", "less than asked", Ev.got >= Ev.size)
               /\ Chk("R02", "alignment", Ev.off % Ev.al = 0)
               /\ BlockPolicy(r, Ev.size, Ev.al, grown)
               /\ Chk("R01", "overlap", PlaceFree(r, Ev.z, Ev.off, Ev.got))
               /\ Blocked /\ grown = 0 /\ Newest(r).start # <<>> =>
                  \E pos \in {Newest(r).start[2] + Newest(r).used} :
                    Chk("R02", "position", Ev.z = Newest(r).start[1]
                        /\ Ev.off = pos + Pad(pos, Ev.al))
               /\ Blocked /\ Ev.cbk = 1 =>
                  Chk("R02", "reported space", Ev.got =
                      IF grown = 0 THEN Unused(r) ELSE grown - hdr)
               /\ Reserve(r, Ev.z, Ev.off, Ev.got, Ev.al, grown)
       /\ NoAllocCb /\ NoTruncCb
       /\ Core(r)

THuge ==
    /\ Ev.op = "huge"
    /\ Chk("R01", "impossible request is served", Ev.okp = 0)
    /\ UNCHANGED rgvars
    /\ NoAllocCb /\ NoTruncCb
    /\ Core(Ev.r)

TTruncate ==
    /\ Ev.op = "truncate"
    /\ Content
    /\ Chk("N02", "cut memory is accessible", Ev.ndead = 0)
    /\ Chk("R02", "truncation callback", Ev.tbn = 1 /\ Ev.tbs = Ev.to)
    /\ UsedInTruncCb(Ev.to)
    /\ NoAllocCb
    /\ Truncate(Ev.r, Ev.to)
    /\ Core(Ev.r)

TJoin ==
    /\ Ev.op = "join"
    /\ \E r \in {Ev.r} : \E grown \in {IF Blocked THEN Ev.total - Total(r) ELSE 0} :
       /\ IF Ev.okp = 0
          THEN /\ Chk("R01", "refused though there is memory", Ev.probe = 0)
               \* A block may have been added before the failure: it is not.
               /\ NoAllocCb
               /\ UNCHANGED rgvars
          ELSE /\ Chk("R02", "joined content", Ev.ok = 1)
               /\ IF Ev.copied = 0
                  THEN /\ Blocked /\ Newest(r).start # <<>> =>
                          Chk("R02", "joined in place", Ev.z = Newest(r).start[1]
                              /\ Ev.off + Ev.size = Newest(r).start[2]
                                                   + Newest(r).used
                              /\ Ev.size <= Newest(r).used)
                       /\ NoAllocCb
                       /\ UNCHANGED rgvars
                  ELSE /\ Chk("R02", "joined size",
                              Ev.used - Used(r) = Ev.size)
                       /\ BlockPolicy(r, Ev.size, 1, grown)
                       /\ Placement(r, Ev.z, Ev.off, Ev.size, Ev.size, 1, grown)
                       /\ Chk("R02", "allocation callback",
                              Ev.cbn = 1 /\ Ev.cbs = Ev.size)
                       /\ UsedInAllocCb(r)
                       /\ Shadow(Ev.size)
                       /\ Alloc(r, Ev.h, Ev.z, Ev.off, Ev.size, Ev.size, grown)
       /\ NoTruncCb
       /\ Core(r)

TResetRegion ==
    /\ Ev.op = "reset"
    /\ Content /\ NoAllocCb
    /\ Reset(Ev.r)
    /\ Core(Ev.r)

TFree ==
    /\ Ev.op = "free"
    /\ Content /\ NoAllocCb
    /\ Chk("R02", "truncation callback", Ev.tbn = 1 /\ Ev.tbs = 0)
    /\ UsedInTruncCb(0)
    /\ Free(Ev.r)
    /\ Core(Ev.r)

TFreeAfter ==
    /\ Ev.op = "freeafter"
    /\ Content /\ NoAllocCb
    /\ IF Used(Ev.r) > Ev.after
       THEN Free(Ev.r) /\ Chk("R02", "truncation callback",
                              Ev.tbn = 1 /\ Ev.tbs = 0)
                     /\ UsedInTruncCb(0)
       ELSE UNCHANGED rgvars /\ NoTruncCb
    /\ Core(Ev.r)

TCheck ==
    /\ Ev.op = "check"
    /\ Content /\ NoAllocCb /\ NoTruncCb
    /\ UNCHANGED rgvars
    /\ Core(Ev.r)
TGone == Gone({"R01", "N01"}) /\ UNCHANGED rgvars

TNext ==
    /\ HasEvent
    /\ TReset \/ TAlloc \/ TReserve \/ THuge \/ TTruncate \/ TJoin
       \/ TResetRegion \/ TFree \/ TFreeAfter \/ TCheck \/ TGone
    /\ Consume

TSpec == TInit /\ [][TNext]_tvars
=============================================================================

----------------------------- MODULE TraceIbuf -----------------------------
(* I01: content, positions, capacity and accounting of input buffers.        *)
(* N02: shadow state in checked builds.                                      *)
EXTENDS Ibuf, TraceLib

VARIABLE checked
tvars == <<ibvars, checked, l>>

TInit == l = 1 /\ bufs = <<>> /\ hdr = -1 /\ checked = FALSE

TReset ==
    /\ Ev.op = "init"
    /\ bufs' = [b \in 1..2 |-> New(Ev.start[b])]
    /\ checked' = (Ev.checked = 1)
    /\ hdr' = -1

Where == IF Ev.have = 1 THEN <<Ev.z, Ev.off>> ELSE <<>>

(* What the buffer tells about itself agrees with the specification.        *)
Agrees(bb) ==
  \E b \in {bb} :
    /\ Chk("I01", "used", Used(b)' = Ev.used)
    /\ Chk("I01", "position", bufs[b].pos' = Ev.pos)
    /\ Chk("I01", "capacity", bufs[b].cap' = Ev.cap)
    /\ Chk("I01", "unused", Unused(b)' = Ev.unused)
    /\ Chk("I01", "block", bufs[b].at' = Where)
    /\ Chk("I01", "content", bufs[b].q' = Ev.runs)
    /\ Chk("I01", "write position", Ev.have = 1 =>
            <<Ev.wz, Ev.woff>> = <<Ev.z, Ev.off + Ev.pos + Ev.used>>)
    /\ Chk("I01", "slab cache used", Blocks' = Ev.cused)
Hidden == Chk("N02", "unused memory is accessible", Ev.exposed = 0)

(* The header of a block is learned from the first one.                     *)
Learn(b) ==
    hdr' = IF hdr < 0 /\ Ev.have = 1 THEN Ev.cused - Ev.cap ELSE hdr

Grow(b, n) ==
    /\ NeedsGrowth(b, n) =>
        /\ Chk("I01", "capacity is too small", Ev.cap >= Used(b) + n)
        /\ Chk("I01", "capacity below the start capacity",
               Ev.cap >= bufs[b].start)
        /\ Chk("I01", "a new block was needed", Where # bufs[b].at)

Size(n) == IF n = 0 THEN bufs[Ev.b].start ELSE n

TAsk ==
    /\ Ev.op \in {"reserve", "alloc"}
    /\ \E b \in {Ev.b} : \E n \in {Size(Ev.n)} :
       /\ Learn(b)
       /\ IF Ev.okp = 0
          THEN /\ Chk("I01", "refused though it fits", NeedsGrowth(b, n))
               /\ Chk("I01", "refused though there is memory", Ev.probe = 0)
               /\ UNCHANGED bufs
          ELSE /\ Grow(b, n)
               /\ bufs' = [bufs EXCEPT ![b] =
                     IF Ev.op = "reserve" THEN Room(b, n, Ev.cap, Where)
                     ELSE [Room(b, n, Ev.cap, Where) EXCEPT
                             !.q = Join(@, <<Ev.v, n>>)]]
               /\ Chk("I01", "result", <<Ev.pz, Ev.poff>> =
                        <<Ev.wz, Ev.woff - (IF Ev.op = "alloc" THEN n ELSE 0)>>)
               /\ Ev.op = "reserve" /\ Ev.how # 0 =>
                     Chk("I01", "reported space", Ev.got = Ev.unused)
               /\ Ev.op = "alloc" => Hidden
    /\ Agrees(Ev.b)

THuge ==
    /\ Ev.op = "huge"
    /\ Chk("I01", "impossible request is served", Ev.okp = 0)
    /\ UNCHANGED ibvars
    /\ Agrees(Ev.b)

TWrite ==
    /\ Ev.op = "write"
    /\ Write(Ev.b, Ev.v, Ev.n)
    /\ Agrees(Ev.b)

TConsume == Ev.op = "consume" /\ Hidden /\ Eat(Ev.b, Ev.n) /\ Agrees(Ev.b)
TDiscard == Ev.op = "discard" /\ Hidden /\ Discard(Ev.b, Ev.n) /\ Agrees(Ev.b)
TResetBuf == Ev.op = "reset" /\ Hidden /\ Reset(Ev.b) /\ Agrees(Ev.b)
TReinit == Ev.op = "reinit" /\ Reinit(Ev.b) /\ Agrees(Ev.b)

(* After shrinking no block of half the size could hold the content (pages   *)
(* are not divided), unless memory for the new block was refused.            *)
Tight(need) == Ev.cap + hdr <= 4096 \/ Ev.cap + hdr < 2 * (need + hdr)
TShrink ==
    /\ Ev.op = "shrink" /\ Hidden
    /\ \E b \in {Ev.b} :
       /\ Used(b) > 0 =>
          Chk("I01", "shrinking has cut or grown the buffer",
              Ev.cap >= Used(b) /\ Ev.cap <= bufs[b].cap)
          /\ Chk("I01", "the buffer is not shrunk", Ev.probe = 1 =>
                 Tight(Larger(Used(b), bufs[b].start)))
       /\ Shrink(b, Ev.cap, Where)
    /\ Agrees(Ev.b)

TDestroy ==
    /\ Ev.op = "destroy"
    /\ Chk("I01", "memory is left", Ev.cused = 0)
    /\ bufs' = <<>> /\ UNCHANGED hdr
TGone == Gone({"I01", "N01"}) /\ UNCHANGED ibvars

TNext ==
    /\ HasEvent
    /\ \/ TReset
       \/ (TAsk \/ THuge \/ TWrite \/ TConsume \/ TDiscard \/ TResetBuf
           \/ TReinit \/ TShrink \/ TDestroy \/ TGone) /\ UNCHANGED checked
    /\ Consume

TSpec == TInit /\ [][TNext]_tvars
=============================================================================

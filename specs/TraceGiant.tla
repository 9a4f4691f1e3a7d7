----------------------------- MODULE TraceGiant -----------------------------
EXTENDS Giant, TraceLib
VARIABLES held,     \* the amount held after the last event
          unit,     \* what a slab holds
          top       \* the most that has been in use
tvars == <<gvars, held, unit, top, l>>
TInit == GInit /\ held = BigZero /\ unit = BigZero /\ top = BigZero /\ l = 1

(* The properties the pieces and the accounting of a container belong to.    *)
P == <<"R01", "I01", "O01", "W01", "C01", "S02", "M01", "A01">>[kind' + 1]
A == <<"R01", "I01", "O01", "W01", "C02", "S03", "M02", "A01">>[kind' + 1]

RECURSIVE Times(_, _)
Times(k, b) == IF k = 0 THEN BigZero ELSE BigAdd(b, Times(k - 1, b))
Core ==
    /\ held' = BigOf(Ev.total)
    /\ Chk(P, "content damaged", Len(Ev.dam) = 0)
    /\ top' = IF BigLeq(used', top) THEN top ELSE used'
    /\ Chk(A, "used", BigOf(Ev.used) = IF kind' = ARENA THEN top' ELSE used')
    /\ Chk(A, "objects", kind' = MEMPOOL =>
           /\ BigOf(Ev.unused) = used' /\ BigOf(Ev.vec) = BigInt(Len(pieces'))
           (* and the headers of the slabs *)
           /\ BigLeq(BigOf(Ev.total), BigOf(Ev.gone))
           /\ BigLeq(BigOf(Ev.gone), BigAdd(BigOf(Ev.total), BigInt(65536))))
    /\ Chk(A, "slabs", kind' = ARENA =>
           BigOf(Ev.total) = top' /\ BigLeq(top', BigOf(Ev.unused)))
    /\ Chk(A, "total", IF kind' = IBUF
           THEN BigOf(Ev.total) = BigAdd(BigOf(Ev.gone),
                                         BigAdd(used', BigOf(Ev.unused)))
           ELSE BigLeq(used', BigOf(Ev.total)))
    (* Each piece holds at most one slab that it does not fill.              *)
    /\ Chk(A, "more is held than needed", kind' \in {4, 5, 6} =>
           BigLeq(BigOf(Ev.total),
                  BigAdd(used', Times(Len(pieces') + 1, unit'))))
    /\ Chk(A, "vectors", kind' # OBUF \/ BigOf(Ev.vec) = used')
    (* and no more buffers than there is a place for                         *)
    /\ Chk(A, "buffers", Ev.op \in {"get", "reserve"} => Ev.nv <= 31)
    /\ Chk(A, "quota", BigLeq(BigOf(Ev.total), BigOf(Ev.quota)))

TReset == Ev.op = "init" /\ Start(Ev.kind) /\ unit' = BigOf(Ev.unit)
          /\ held' = BigZero /\ top' = BigZero
          (* as many slabs as are needed for what was asked and allowed     *)
          /\ Chk(A, "preallocated", Ev.kind = ARENA =>
                 /\ BigOf(Ev.prem) = BigZero
                 /\ BigLeq(BigOf(Ev.want), BigOf(Ev.pre))
                 /\ ~BigLeq(BigAdd(BigOf(Ev.want), BigOf(Ev.unit)),
                            BigOf(Ev.pre)))
Taken == IF kind \in {REGION, LSREGION} /\ Ev.al > 1
         THEN BigSub(BigOf(Ev.used), used) ELSE BigOf(Ev.real)
TGet ==
    /\ Ev.op = "get"
    /\ IF Ev.okp = 0
       THEN /\ UNCHANGED gvars
            /\ Chk(P, "refused though there is memory",
                   \/ Ev.can = 0
                   \/ Ev.nv = 31
                   \/ kind = ARENA /\ used = top
                      /\ ~BigLeq(BigAdd(top, unit), BigOf(Ev.unused)))
       ELSE /\ Get([h |-> Ev.h, a |-> BigOf(Ev.a), n |-> BigOf(Ev.n),
                    real |-> BigOf(Ev.real), t |-> held], Taken)
            /\ Chk(P, "alignment", BigOf(Ev.rem) = BigZero)
            /\ Chk(P, "overlap", NewApart')
            /\ Chk(P, "size", BigLeq(BigOf(Ev.n), BigOf(Ev.real)))
            /\ Chk(P, "padding", BigLeq(BigOf(Ev.n), Taken) /\
                   (kind \in {4, 5} \/
                    BigLeq(Taken, BigAdd(BigOf(Ev.n), BigInt(Ev.al - 1)))))
    /\ UNCHANGED unit /\ Core
TReserve ==
    /\ Ev.op = "reserve" /\ UNCHANGED gvars
    /\ IF Ev.okp = 0
       THEN Chk(P, "refused though there is memory", Ev.can = 0 \/ Ev.nv = 31)
       ELSE Chk(P, "reserved", BigLeq(BigOf(Ev.n), BigOf(Ev.got)))
    /\ UNCHANGED unit /\ Core
(* What was taken after the moment that is returned to is released; a reset *)
(* region keeps its blocks.                                                  *)
TKeep ==
    /\ Ev.op = "keep"
    /\ \E k \in {Ev.k} : Keep(k)
    /\ Chk(A, "memory is not released",
           kind = REGION => IF Ev.reset = 1 THEN BigOf(Ev.total) = held
                            ELSE Ev.k < Len(pieces) =>
                                 BigLeq(BigOf(Ev.total), pieces[Ev.k + 1].t))
    /\ UNCHANGED unit /\ Core
TDrop ==
    /\ Ev.op = "drop"
    /\ \E r \in {<<Ev.k, BigOf(Ev.used)>>} :
        IF kind = LSREGION
        THEN /\ Collect(r[1], r[2])
             /\ Chk("W01", "used after collection",
                    /\ BigLeq(Sum(pieces'), r[2]) /\ BigLeq(r[2], used)
                    /\ (pieces' = <<>> => r[2] = BigZero))
             /\ Chk("W01", "memory is not released",
                    pieces' = <<>> => BigLeq(BigOf(Ev.total), unit))
        ELSE Drop(r[1])
    /\ UNCHANGED unit /\ Core
TFree == Ev.op = "free" /\ (\E h \in {Ev.h} : Free(h)) /\ UNCHANGED unit /\ Core
TShrink == Ev.op = "shrink" /\ UNCHANGED gvars /\ UNCHANGED unit /\ Core
TFlush ==
    /\ Ev.op = "flush"
    /\ Flush
    /\ Chk("W02", "flushed bytes", kept \/ BigOf(Ev.sum) = ahead)
    /\ UNCHANGED unit /\ Core
TStop ==
    /\ Ev.op = "stop"
    /\ UNCHANGED <<gvars, held, unit, top>>
    /\ Chk(A, "memory is held", BigOf(Ev.held) = BigZero)

TNext == HasEvent /\ (TReset \/ TGet \/ TReserve \/ TKeep \/ TDrop \/ TFree
                      \/ TShrink \/ TFlush \/ TStop) /\ Consume
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

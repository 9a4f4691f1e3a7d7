---------------------------- MODULE TraceSystem ----------------------------
(* Y01: containers that share memory do not disturb each other.               *)
EXTENDS System, Big, TraceLib
VARIABLES used, held,   \* of each container, after the last event
          geo           \* [slab, nslabs]
tvars == <<svars, used, held, geo, l>>
TInit == boxes = <<>> /\ used = <<>> /\ held = <<>>
         /\ geo = [slab |-> 0, nslabs |-> 0] /\ l = 1

End(p) == BigAdd(p.a, BigInt(p.n))
Apart(p, q) == BigLeq(End(p), q.a) \/ BigLeq(End(q), p.a)
RECURSIVE Sum(_, _)
Sum(q, i) == IF i = 0 THEN 0 ELSE q[i].n + Sum(q, i - 1)
RECURSIVE HeldLog(_, _)
HeldLog(q, b) == IF b = 0 THEN 0
                 ELSE (IF Kind(b) = "log" THEN q[b] ELSE 0) + HeldLog(q, b - 1)
RECURSIVE HeldIn(_, _, _)
HeldIn(q, c, b) ==
    IF b = 0 THEN 0
    ELSE (IF Kind(b) # "log" /\ CacheOf(b) = c THEN q[b] ELSE 0)
         + HeldIn(q, c, b - 1)
Exact == {"region", "ibuf", "obuf", "pool"}

(* B: the containers the operation was done on.                              *)
CoreOf(B) ==
    /\ used' = Ev.used /\ held' = Ev.held
    /\ Chk("Y01", "content damaged", Len(Ev.dam) = 0)
    (* Nothing is changed about the others.                                  *)
    /\ Chk("Y01", "usage of another container",
           \A x \in DOMAIN boxes \ B : Ev.used[x] = used[x])
    /\ Chk("Y01", "memory held by another container",
           \A x \in DOMAIN boxes \ B : Ev.held[x] = held[x])
    /\ Chk("Y01", "used", \A b \in B :
           LET g == Sum(boxes'[b], Len(boxes'[b])) IN
           /\ IF Kind(b) \in Exact THEN Ev.used[b] = g ELSE Ev.used[b] >= g
           /\ boxes'[b] = <<>> => Ev.used[b] = 0
           /\ Ev.held[b] >= Ev.used[b])
    (* All that a cache has in use is held by its containers, and is covered *)
    (* by what it holds itself; all that is held was charged.                *)
    /\ Chk("Y01", "used by the cache",
           \A c \in 1..2 : /\ Ev.cached[c] = HeldIn(Ev.held, c, Len(Ev.held))
                           /\ Ev.cached[c] <= Ev.total[c])
    /\ Chk("Y01", "quota", Ev.total[1] + Ev.total[2] + HeldLog(Ev.held, Len(Ev.held))
                           <= Ev.quota)
    /\ Chk("Y01", "limit", Ev.quota <= geo'.slab * geo'.nslabs)
Core(b) == CoreOf({b})

TReset ==
    /\ Ev.op = "init"
    /\ \E n \in {Ev.nb} : Start(n)
    /\ geo' = [slab |-> Ev.slab, nslabs |-> Ev.nslabs]
    /\ used' = Ev.used /\ held' = Ev.held
    /\ Chk("Y01", "something is used at once",
           \A x \in 1..Ev.nb : Ev.used[x] = 0 /\ Ev.held[x] = 0)
TGet ==
    /\ Ev.op = "get" /\ UNCHANGED geo
    /\ IF Ev.h = 0
       THEN /\ UNCHANGED svars
            /\ Chk("Y01", "refused though there is memory", Ev.can = 0)
            /\ Chk("Y01", "usage after a refusal", Ev.used[Ev.b] = used[Ev.b])
       ELSE \E r \in {[h |-> Ev.h, a |-> BigOf(Ev.a), n |-> Ev.n]} :
            /\ Chk("Y01", "memory of two containers overlaps",
                   \A p \in Pieces : Kind(Ev.b) # "ibuf" => Apart(p, r))
            /\ Get(Ev.b, r)
    /\ Core(Ev.b)
(* It may not be where something else is, nor move what there is.           *)
TReserve ==
    /\ Ev.op = "reserve" /\ UNCHANGED geo
    /\ \E b \in {Ev.b} : CanReserve(b) /\ Same(b)
    /\ IF Ev.ok = 0
       THEN Chk("Y01", "refused though there is memory", Ev.can = 0)
       ELSE \E r \in {[h |-> 0, a |-> BigOf(Ev.a), n |-> Ev.n]} :
            Chk("Y01", "memory of two containers overlaps",
                \A p \in Pieces : Apart(p, r))
    /\ Chk("Y01", "usage after a reservation", Ev.used[Ev.b] = used[Ev.b])
    /\ Core(Ev.b)
TShrink ==
    /\ Ev.op = "shrink" /\ UNCHANGED geo
    /\ \E b \in {Ev.b} : Same(b)
    /\ Chk("Y01", "more memory after a shrink", Ev.held[Ev.b] <= held[Ev.b])
    /\ Core(Ev.b)
TRenew ==
    /\ Ev.op = "renew" /\ UNCHANGED geo
    /\ \E c \in {Ev.c} : Renew(c)
    /\ Chk("Y01", "memory of a destroyed cache", Ev.total[Ev.c] = 0)
    /\ CoreOf(OfCache(Ev.c))
TDrop == Ev.op = "drop" /\ UNCHANGED geo
         /\ (\E r \in {<<Ev.b, Ev.k>>} : Drop(r[1], r[2])) /\ Core(Ev.b)
TKeep == Ev.op = "keep" /\ UNCHANGED geo
         /\ (\E r \in {<<Ev.b, Ev.k>>} : Keep(r[1], r[2])) /\ Core(Ev.b)
TFree == Ev.op = "free" /\ UNCHANGED geo
         /\ (\E r \in {<<Ev.b, Ev.h>>} : Free(r[1], r[2])) /\ Core(Ev.b)
TAgain == /\ Ev.op = "again" /\ UNCHANGED geo
          /\ \E b \in {Ev.b} : Again(b)
          /\ Chk("Y01", "memory of a destroyed container", Ev.held[Ev.b] = 0)
          /\ Core(Ev.b)
TStop ==
    /\ Ev.op = "stop" /\ UNCHANGED <<svars, used, held, geo>>
    /\ Chk("Y01", "memory is not given back",
           Ev.left[1] = 0 /\ Ev.left[2] = 0)
    (* All of the memory can be used again, by anyone.                       *)
    /\ Chk("Y01", "memory is lost", Ev.slabs = geo.nslabs
                                    /\ Ev.quota = geo.slab * geo.nslabs)
TNext == HasEvent /\ (TReset \/ TGet \/ TDrop \/ TKeep \/ TFree \/ TAgain
                      \/ TReserve \/ TShrink \/ TRenew
                      \/ TStop) /\ Consume
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

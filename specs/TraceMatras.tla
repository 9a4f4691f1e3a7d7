---------------------------- MODULE TraceMatras ----------------------------
(* X01: ids, places and content of the newest version.  X02: read views and   *)
(* touching.  X03: extents held.                                             *)
EXTENDS Matras, TraceLib

VARIABLES budget,  \* further extents obtainable
          stats,   \* statistics are kept
          side     \* others that use the same allocator: the leaves of
                   \* another matras (peer) and extents (raw)
tvars == <<mvars, budget, stats, side, l>>
Lots == 1000000

TInit == /\ l = 1 /\ head = Empty /\ views = <<>> /\ order = <<>> /\ heap = <<>>
         /\ rsv = 0 /\ promise = 0 /\ nid = 0 /\ budget = Lots /\ stats = FALSE
         /\ side = [peer |-> 0, raw |-> 0]
         /\ geo = [lc |-> 1, lp |-> 1, cap |-> 1, bs |-> 1]
(* Leaves addressable: limited by the pointers and by 32 bit ids.            *)
Cap(les, lbs) == IF 2 * (les - 3) + (les - lbs) >= 32
                 THEN 2 ^ Smaller(30, 32 - (les - lbs)) ELSE 2 ^ (2 * (les - 3))
TReset ==
    /\ Ev.op = "init"
    /\ head' = Empty /\ views' = <<>> /\ order' = <<>> /\ heap' = <<>>
    /\ rsv' = 0 /\ promise' = 0 /\ nid' = 0 /\ budget' = Lots
    /\ stats' = (Ev.stats = 1)
    /\ side' = [peer |-> 0, raw |-> 0]
    /\ geo' = [lc |-> 2 ^ (Ev.les - Ev.lbs), lp |-> 2 ^ (Ev.les - 3),
               cap |-> Cap(Ev.les, Ev.lbs), bs |-> 2 ^ Ev.lbs]

PeerHeld == IF side.peer = 0 THEN 0
            ELSE 1 + Ceil(side.peer, geo.lp) + side.peer
PeerNeed == (IF side.peer = 0 THEN 1 ELSE 0)
            + (IF side.peer % geo.lp = 0 THEN 1 ELSE 0) + 1
(* What is observed after every operation.                                  *)
Core ==
    /\ Chk("core", "bad free", Ev.bad = 0)
    /\ Chk("X01", "block count", head'.cnt = Ev.cnt)
    /\ Chk("X03", "extents held", Held' + PeerHeld' + side'.raw + Ev.rsv = Ev.out)
    /\ Chk("X03", "extent count", Held' = Ev.ext /\ PeerHeld' = Ev.pext)
    /\ Chk("X01", "block count of another matras", side'.peer = Ev.pcnt)
    /\ stats => /\ Chk("X03", "extent statistics",
                    Held' + PeerHeld' = Ev.sext)
                /\ Chk("X03", "read view extent statistics",
                       HeldByViewsOnly' = Ev.srv)
    /\ LET before == AllLeaves(head, views) IN
       Chk("X03", "released leaves",
           {Ev.freed[i] : i \in 1..Len(Ev.freed)} \cap before
             = before \ AllLeaves(head', views'))
    /\ Chk("X03", "reserve", Ev.rsv >= 0)
    /\ rsv' = Ev.rsv
    /\ budget' = IF budget = Lots THEN Lots ELSE budget - Ev.got
Have == rsv + budget
(* Nothing but what the operation needs is taken from the reserve.          *)
Takes(n) == Chk("X03", "taken from the reserve", Ev.rsv = rsv - Smaller(rsv, n))
Less(p) == IF p > 0 THEN p - 1 ELSE 0

TAlloc ==
    /\ Ev.op = "alloc"
    /\ IF Ev.okp = 0
       THEN /\ Chk("X01", "refused though there is room", Full(Ev.n)
                   \/ AllocNeed > Have)
            /\ promise' = IF Full(Ev.n) THEN promise ELSE 0
            /\ UNCHANGED <<head, views, order, heap, nid, geo>>
       ELSE /\ Chk("X01", "more than the capacity", ~Full(Ev.n))
            /\ Takes(AllocNeed)
            /\ Chk("X01", "id", Ev.id = head.cnt)
            /\ Chk("X01", "new leaf is in use",
                   head.cnt % geo.lc = 0 => Ev.e > 0
                   /\ Ev.e \notin AllLeaves(head, views))
            /\ \E r \in {<<Ev.n, Ev.e, Ev.v>>} : Alloc(r[1], r[2], r[3])
            /\ Chk("X01", "place", Ev.e = head'.leaf[Len(head'.leaf)])
            /\ promise' = IF Ev.rsv < rsv THEN 0 ELSE promise
    /\ UNCHANGED <<stats, side>> /\ Core

(* Without memory some of the copies are made, or none.                      *)
Partly(id) ==
    /\ ChkAny({"X02", "X03"}, "failed touch",
              \E n \in 0..(TouchNeed(id) - 1) : n <= Have
              /\ Cardinality(AllNodes(Copied(id, n, -(nid + 3)), views)) = Ev.ext)
    /\ \E n \in 0..(TouchNeed(id) - 1) :
        /\ n <= Have
        /\ Cardinality(AllNodes(Copied(id, n, -(nid + 3)), views)) = Ev.ext
        /\ Touch(id, n, -(nid + 3), -1)

TDealloc ==
    /\ Ev.op = "dealloc"
    /\ LET id == head.cnt - Ev.n IN
       IF Ev.rc # 0
       THEN /\ Chk("X02", "refused though there is memory",
                   TouchNeed(id) > Have)
            /\ Chk("X02", "refused though promised", promise = 0)
            /\ Partly(id)
       ELSE /\ Chk("X02", "block of a view is released without memory",
                   TouchNeed(id) <= Have \/ id % geo.lc = 0)
            /\ Chk("X03", "taken from the reserve", Ev.rsv <= rsv)
            \* The leaf may vanish at once; it is seen if it stays.
            /\ \E r \in {<<Ev.n, IF id % geo.lc = 0 THEN -(nid + 3) ELSE Ev.e>>} :
                Dealloc(r[1], r[2])
            /\ Chk("X01", "place after dealloc",
                   id % geo.lc # 0 => Ev.e = head'.leaf[Len(head'.leaf)])
            /\ Chk("X02", "shared leaf after dealloc",
                   id % geo.lc # 0 /\ MustCopy(id) =>
                     Ev.e \notin AllLeaves(head, views))
    /\ promise' = Less(promise)
    /\ UNCHANGED <<stats, side>> /\ Core

TTouch ==
    /\ Ev.op = "touch"
    /\ Chk("X02", "no touch needed though shared", MustCopy(Ev.id) => Ev.nt = 1)
    /\ Chk("X02", "touch needed without views", order = <<>> => Ev.nt = 0)
    /\ IF Ev.okp = 0
       THEN /\ Chk("X02", "touch failed though there is memory",
                   TouchNeed(Ev.id) > Have)
            /\ Chk("X02", "touch failed though promised", promise = 0)
            /\ Partly(Ev.id)
       ELSE /\ Takes(TouchNeed(Ev.id))
            /\ Chk("X02", "touched block is shared",
                   MustCopy(Ev.id) => Ev.e > 0
                   /\ Ev.e \notin AllLeaves(head, views))
            /\ Chk("X01", "place", ~MustCopy(Ev.id) =>
                   Ev.e = head.leaf[LeafOf(Ev.id)])
            /\ \E r \in {<<Ev.id, Ev.e, Ev.v>>} :
                Touch(r[1], TouchNeed(r[1]), r[2], r[3])
    /\ promise' = Less(promise)
    /\ UNCHANGED <<stats, side>> /\ Core

TOpen ==
    /\ Ev.op = "view"
    /\ Chk("X02", "view is not created", Ev.cr = 1)
    /\ Chk("X02", "block count of a view", Ev.n = head.cnt)
    /\ \E k \in {Ev.k} : Open(k)
    /\ promise' = 0
    /\ UNCHANGED <<stats, side>> /\ Core
TClose ==
    /\ Ev.op = "unview"
    /\ Chk("X02", "view is still created", Ev.cr = 0)
    /\ IF Ev.was = 1 THEN \E k \in {Ev.k} : Close(k)
       ELSE UNCHANGED <<head, views, order, heap, nid, geo>>
    /\ UNCHANGED promise
    /\ UNCHANGED <<stats, side>> /\ Core

TReserve ==
    /\ Ev.op = "reserve"
    /\ Chk("X02", "reserve failed though there is memory",
           Ev.rc # 0 => 2 * Ev.n + 1 - rsv > budget)
    /\ Chk("X03", "reserve is too big", Ev.rsv <= Larger(rsv, 2 * Ev.n + 1))
    /\ Chk("X03", "reserve got smaller", Ev.rsv >= rsv)
    /\ promise' = IF Ev.rc = 0 THEN Ev.n ELSE promise
    /\ UNCHANGED <<head, views, order, heap, nid, geo>>
    /\ UNCHANGED <<stats, side>> /\ Core

TLimit ==
    /\ Ev.op = "limit"
    /\ budget' = IF Ev.left < 0 THEN Lots ELSE Ev.left
    /\ UNCHANGED <<mvars, stats, side>>

(* A block number b of the dump, in each version.                            *)
Same(dumped, r) ==
    /\ Len(dumped) = Smaller(Len(r), 600)
    /\ \A i \in 1..Len(dumped) : dumped[i] = r[i]
TCheck ==
    /\ Ev.op = "check"
    /\ Chk("X02", "open views", Len(Ev.vers) = 1 + Cardinality(DOMAIN views))
    /\ \A i \in 1..Len(Ev.vers) :
        IF Ev.vers[i].k = 0
        THEN Chk("X01", "content", Same(Ev.vers[i].vals, Read(head)))
        ELSE Chk("X02", "content of a view",
                 Same(Ev.vers[i].vals, Read(views[Ev.vers[i].k])))
    /\ Chk("X01", "places", \A i \in 1..Len(Ev.locs) :
            /\ Ev.locs[i][1] = head.leaf[LeafOf(i - 1)]
            /\ Ev.locs[i][2] = ((i - 1) % geo.lc) * geo.bs)
    /\ Chk("X01", "content of others", Ev.same = 1)
    /\ UNCHANGED <<head, views, order, heap, promise, nid, geo>>
    /\ UNCHANGED <<stats, side>> /\ Core

(* Others that get their extents from the same allocator.                   *)
Mine == <<head, views, order, heap, nid, geo>>
Spent == IF Ev.rsv < rsv THEN 0 ELSE promise
TPeer ==
    /\ Ev.op = "peer" /\ UNCHANGED <<Mine, stats>>
    /\ IF Ev.okp = 0
       THEN /\ Chk("X01", "refused though there is room",
                   side.peer = geo.cap \/ PeerNeed > Have)
            /\ UNCHANGED side
       ELSE /\ Chk("X01", "more than the capacity", side.peer < geo.cap)
            /\ Chk("X01", "id", Ev.id = 1)
            /\ Takes(PeerNeed)
            /\ side' = [side EXCEPT !.peer = @ + 1]
    /\ promise' = Spent /\ Core
TPDrop ==
    /\ Ev.op = "pdrop" /\ UNCHANGED <<Mine, stats, promise>>
    /\ Chk("X02", "refused though there is no view", Ev.rc = 0)
    /\ Chk("X03", "taken from the reserve", Ev.rsv = rsv)
    /\ side' = [side EXCEPT !.peer = @ - 1] /\ Core
TEGet ==
    /\ Ev.op = "eget" /\ UNCHANGED <<Mine, stats>>
    /\ Takes(1)
    /\ Chk("X03", "extent refused", (Ev.okp = 1) = (Have > 0))
    /\ side' = [side EXCEPT !.raw = @ + Ev.okp]
    /\ promise' = Spent /\ Core
TEPut ==
    /\ Ev.op = "eput" /\ UNCHANGED <<Mine, stats, promise>>
    /\ Chk("X03", "reserve", Ev.rsv = rsv)
    /\ side' = [side EXCEPT !.raw = @ - 1] /\ Core
TEReserve ==
    /\ Ev.op = "ereserve" /\ UNCHANGED <<Mine, stats, side, promise>>
    /\ Chk("X02", "reserve failed though there is memory",
           Ev.rc # 0 => Ev.n - rsv > budget)
    /\ Chk("X03", "reserve", IF Ev.rc = 0 THEN Ev.rsv = Larger(rsv, Ev.n)
                             ELSE Ev.rsv \in rsv..Ev.n)
    /\ Core
TDrop ==
    /\ Ev.op = "reset" \/ Ev.op = "destroy"
    /\ Drop /\ promise' = 0
    /\ side' = IF Ev.op = "destroy" THEN [peer |-> 0, raw |-> 0] ELSE side
    /\ UNCHANGED stats /\ Core
TBye ==
    /\ Ev.op = "bye"
    /\ Chk("X03", "reserve is not released", Ev.out = 0 /\ Ev.rsv = 0)
    /\ UNCHANGED <<head, views, order, heap, promise, nid, geo>>
    /\ UNCHANGED <<stats, side>> /\ Core

(* Filled up to the capacity.                                               *)
TFull ==
    /\ Ev.op = "full"
    /\ LET cap == Cap(Ev.les, Ev.lbs)
           inner == Ev.ext1 - Ev.leaves
           lp == 2 ^ (Ev.les - 3)
           \* Half of the ids at most below one pointer.
           half == 2 ^ Smaller(30, 31 - (Ev.les - Ev.lbs)) IN
       /\ Chk("X01", "capacity", Ev.leaves = cap)
       /\ Chk("X01", "ids", Ev.badid = 0)
       /\ Chk("X01", "blocks", Ev.badblk = 0)
       /\ Chk("X03", "extents of a full matras",
              inner \in (1 + CeilDiv(cap, lp))
                        ..(1 + CeilDiv(cap, Smaller(lp, half))))
       /\ Chk("X03", "extent count", Ev.ext1 = Ev.count + (Ev.ext1 - Ev.ext3))
       /\ Chk("X03", "copies", Ev.copies = 3 * Ev.views)
       /\ Chk("X03", "closed view", Ev.ext3 = Ev.ext1)
       /\ Chk("X03", "extents are not released", Ev.left = 0)
       /\ Chk("core", "bad free", Ev.bad = 0)
    /\ UNCHANGED <<mvars, budget, stats, side>>

TNext ==
    /\ HasEvent
    /\ TReset \/ TAlloc \/ TDealloc \/ TTouch \/ TOpen \/ TClose \/ TReserve
       \/ TLimit \/ TCheck \/ TPeer \/ TPDrop \/ TEGet \/ TEPut
       \/ TEReserve \/ TDrop \/ TBye \/ TFull
    /\ Consume

TSpec == TInit /\ [][TNext]_tvars
=============================================================================

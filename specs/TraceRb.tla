------------------------------ MODULE TraceRb -------------------------------
(* B01: ordered set, searches, iteration.  B02: augmentation, walks.          *)
EXTENDS Rb, TraceLib
VARIABLE aug
tvars == <<bvars, aug, l>>

TInit == l = 1 /\ nodes = <<>> /\ width = 1 /\ aug = 0
TReset == Ev.op = "init" /\ nodes' = <<>> /\ width' = Ev.w /\ aug' = Ev.aug

TIns == Ev.op = "ins" /\ (\E v \in {Ev.v} : Insert(v)) /\ UNCHANGED aug
TDel == Ev.op = "del" /\ (\E v \in {Ev.v} : Remove(v)) /\ UNCHANGED aug

TCheck ==
    /\ Ev.op = "check"
    /\ Chk("B01", "empty", (Ev.empty = 1) = (nodes = <<>>))
    /\ Chk("B01", "first", Ev.first = At(1))
    /\ Chk("B01", "last", Ev.last = At(Len(nodes)))
    /\ Chk("B01", "first, next", Ev.next = nodes)
    /\ Chk("B01", "last, prev", Ev.prev = Rev(nodes))
    /\ Chk("B01", "ifirst, inext", Ev.inext = nodes /\ Ev.iend = 0)
    /\ Chk("B01", "ilast, iprev", Ev.iprev = Rev(nodes) /\ Ev.pend = 0)
    /\ Chk("B01", "iter", Ev.iter = nodes /\ Ev.iterret = 0)
    /\ Chk("B01", "reverse_iter", Ev.riter = Rev(nodes) /\ Ev.riterret = 0)
    /\ Chk("B01", "node is lost", Ev.lost = 0)
    /\ Chk("B01", "height", HeightOk(Ev.h, Len(nodes)))
    /\ Chk("B02", "full walk", IsTree(Ev.walk))
    /\ Chk("B02", "augmentation", aug = 1 => Augmented(Ev.walk))
    /\ UNCHANGED <<bvars, aug>>

TFind ==
    /\ Ev.op = "find"
    /\ LET k == Ev.k  m == Matches(k) IN
       /\ Chk("B01", "search", IF m = {} THEN Ev.s = 0
                               ELSE \E i \in m : Ev.s = nodes[i])
       /\ Chk("B01", "nsearch", Ev.n = At(NSearch(k)))
       /\ Chk("B01", "psearch", Ev.p = At(PSearch(k)))
       /\ Chk("B01", "isearch", (Ev.found = 1) = (m # {})
              /\ IF m = {} THEN Ev.i = Iterator(0, Ev.mv)
                 ELSE \E i \in m : Ev.i = Iterator(i, Ev.mv))
       /\ Chk("B01", "isearch_le", Ev.le = Iterator(Le(k), Ev.mv))
       /\ Chk("B01", "isearch_ge", Ev.ge = Iterator(Ge(k), Ev.mv))
       /\ Chk("B01", "isearch_lt", Ev.lt = Iterator(Lt(k), Ev.mv))
       /\ Chk("B01", "isearch_gt", Ev.gt = Iterator(Gt(k), Ev.mv))
    /\ UNCHANGED <<bvars, aug>>

TFrom ==
    /\ Ev.op = "from"
    /\ LET i == IF Has(Ev.v) THEN Index(Ev.v) ELSE 0 IN
       /\ Chk("B01", "icreate", (Ev.found = 1) = (i # 0)
              /\ Ev.i = Iterator(i, Ev.mv))
       /\ Chk("B01", "next", Ev.next = IF i = 0 THEN 0 ELSE At(i + 1))
       /\ Chk("B01", "prev", Ev.prev = IF i = 0 THEN 0 ELSE At(i - 1))
       /\ i # 0 =>
          /\ Chk("B01", "iter from a node",
                 Ev.it = Visited(Ev.v, FALSE, Ev.stop)
                 /\ Ev.itret = Stopped(Ev.v, FALSE, Ev.stop))
          /\ Chk("B01", "reverse_iter from a node",
                 Ev.rit = Visited(Ev.v, TRUE, Ev.stop)
                 /\ Ev.ritret = Stopped(Ev.v, TRUE, Ev.stop))
    /\ UNCHANGED <<bvars, aug>>

TIterDel ==
    /\ Ev.op = "itdel"
    /\ LET rev == Ev.rev = 1 IN
       /\ Chk("B01", "iter", Ev.seen = Visited(Ev.from, rev, Ev.stop))
       /\ Chk("B01", "iter is stopped",
              Ev.ret = Stopped(Ev.from, rev, Ev.stop))
    /\ IF Ev.ret = 0 THEN UNCHANGED bvars ELSE \E v \in {Ev.ret} : Remove(v)
    /\ UNCHANGED aug

TWalk ==
    /\ Ev.op = "walk"
    /\ Chk("B02", "full walk", IsTree(Ev.shape))
    /\ Chk("B02", "guided walk", Ev.walk = GuidedWalk(Ev.shape, Ev.dirs))
    /\ UNCHANGED <<bvars, aug>>

(* Values 1..n; what the iterators have seen there.                          *)
TGrow ==
    /\ Ev.op = "grow" /\ nodes = <<>>
    /\ Chk("B01", "forward", Ev.fwd = Ev.n /\ Ev.end = 0)
    /\ Chk("B01", "backward", Ev.bwd = Ev.n /\ Ev.pend = 0)
    /\ Chk("B01", "iterators", width = 1 => \A i \in 1..Len(Ev.at) :
           LET k == i IN
           Ev.at[i] = <<k, 1, k, k, k, k - 1, k + 1, 1, k>>)
    /\ Chk("B02", "full walk", Ev.walk = Ev.n)
    /\ UNCHANGED <<bvars, aug>>

TNext == /\ HasEvent
         /\ \/ TReset \/ TIns \/ TDel \/ TCheck \/ TFind \/ TFrom \/ TIterDel
            \/ TWalk \/ TGrow
         /\ Consume
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

----------------------------- MODULE TraceLists -----------------------------
(* D01: doubly linked lists.  D02: LIFO and slab list.                       *)
EXTENDS Lists, Big, TraceLib
tvars == <<lvars, l>>

TInit == /\ l = 1 /\ lists = <<>> /\ stale = {} /\ alone = {} /\ stack = <<>>
         /\ slabs = <<>>
TReset ==
    /\ Ev.op = "init"
    /\ lists' = [k \in 1..Ev.nl |-> <<>>] /\ stale' = {} /\ alone' = 1..Ev.ne
    /\ stack' = <<>> /\ slabs' = <<>>

(* All ways to look at a list agree.                                        *)
Same ==
    /\ \A k \in DOMAIN lists' : LET d == Ev.lists[k]  q == lists'[k] IN
        /\ Chk("D01", "stale", (d.stale = 1) = (k \in stale'))
        /\ k \notin stale' =>
            /\ Chk("D01", "forward", d.f = q /\ d.g = q)
            /\ Chk("D01", "backward", d.b = Rev(q) /\ d.h = Rev(q))
            /\ Chk("D01", "empty", (d.empty = 1) = (q = <<>>))
            /\ Chk("D01", "first", d.first = IF q = <<>> THEN 0 ELSE Head(q))
            /\ Chk("D01", "last", d.last = IF q = <<>> THEN 0
                                           ELSE q[Len(q)])
    /\ Chk("D01", "removed element is linked",
           alone' \subseteq Rng(Ev.alone))

(* The lists do not matter when D02 is decided.                              *)
TSkip == /\ ~Enforced("D01") /\ UNCHANGED lvars
         /\ Ev.op \notin {"init", "push", "pop", "sadd", "sdel"}
TOne ==
    /\ Enforced("D01")
    /\ \/ Ev.op = "add" /\ \E r \in {<<Ev.l, Ev.e>>} : Add(r[1], r[2])
       \/ Ev.op = "addt" /\ \E r \in {<<Ev.l, Ev.e>>} : AddTail(r[1], r[2])
       \/ Ev.op = "del" /\ \E e \in {Ev.e} : Del(e)
       \/ /\ Ev.op = "shift"
          /\ Chk("D01", "shifted", Ev.e = Head(lists[Ev.l]))
          /\ \E k \in {Ev.l} : Shift(k)
       \/ /\ Ev.op = "shiftt"
          /\ Chk("D01", "shifted", Ev.e = lists[Ev.l][Len(lists[Ev.l])])
          /\ \E k \in {Ev.l} : ShiftTail(k)
       \/ Ev.op = "move" /\ \E r \in {<<Ev.l, Ev.e>>} : Move(r[1], r[2])
       \/ Ev.op = "movet" /\ \E r \in {<<Ev.l, Ev.e>>} : MoveTail(r[1], r[2])
       \/ Ev.op = "swap" /\ \E r \in {<<Ev.l, Ev.k>>} : Swap(r[1], r[2])
       \/ Ev.op = "splice" /\ \E r \in {<<Ev.l, Ev.k>>} : Splice(r[1], r[2])
       \/ Ev.op = "splicet" /\ \E r \in {<<Ev.l, Ev.k>>} : SpliceTail(r[1], r[2])
       \/ Ev.op = "cut" /\ \E r \in {<<Ev.l, Ev.k, Ev.e>>} : Cut(r[1], r[2], r[3])
       \/ Ev.op = "discard" /\ \E k \in {Ev.l} : Discard(k)
       \/ Ev.op = "create" /\ \E k \in {Ev.l} : Create(k)
       \/ /\ Ev.op = "purge"
          /\ Chk("D01", "walk", Ev.seen = IF Ev.rev = 1 THEN Rev(lists[Ev.l])
                                          ELSE lists[Ev.l])
          /\ \E r \in {<<Ev.l, Ev.rem>>} : Purge(r[1], r[2])
       \/ /\ Ev.op = "near"
          /\ \E k \in In(Ev.e) : LET q == lists[k]  i == Index(q, Ev.e) IN
             /\ Chk("D01", "next", Ev.next = IF i = Len(q) THEN 0 ELSE q[i + 1])
             /\ Chk("D01", "next entry",
                    Ev.nexte = IF i = Len(q) THEN 0 ELSE q[i + 1])
             /\ Chk("D01", "previous", Ev.prev = IF i = 1 THEN 0 ELSE q[i - 1])
          /\ UNCHANGED lvars
    /\ Same

TLifo ==
    /\ \/ Ev.op = "push" /\ \E e \in {Ev.e} : Push(e)
       \/ /\ Ev.op = "pop"
          /\ Chk("D02", "popped", Ev.e = Top)
          /\ Pop
    /\ Chk("D02", "lifo is empty", (Ev.empty = 1) = (stack' = <<>>))
    /\ Chk("D02", "top of the lifo", Ev.peek = Top')

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN BigZero
             ELSE LET x == CHOOSE x \in S : TRUE IN
                  BigAdd(f[x], Sum(f, S \ {x}))
TSlab ==
    /\ \/ Ev.op = "sadd" /\ \E r \in {<<Ev.s, BigOf(Ev.n)>>} : SlabAdd(r[1], r[2])
       \/ Ev.op = "sdel" /\ \E s \in {Ev.s} : SlabDel(s)
    /\ Chk("D02", "slabs", Rng(Ev.all) = DOMAIN slabs'
           /\ Len(Ev.all) = Cardinality(DOMAIN slabs'))
    /\ \E s \in {slabs'} : Chk("D02", "total", BigOf(Ev.total) = Sum(s, DOMAIN s))
    /\ Chk("D02", "used", Ev.used = 0)

TNext ==
    /\ HasEvent
    /\ TReset \/ TSkip \/ TOne \/ TLifo \/ TSlab
    /\ Consume
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

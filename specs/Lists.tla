------------------------------- MODULE Lists --------------------------------
(* Doubly linked lists as sequences, a LIFO and a slab list.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    lists,   \* list -> sequence of elements
    stale,   \* lists whose head is out of date
    alone,   \* elements known to be linked to themselves
    stack,   \* LIFO, the newest first
    slabs    \* slab -> size

lvars == <<lists, stale, alone, stack, slabs>>
Rng(s) == {s[i] : i \in 1..Len(s)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Without(s, e) == SelectSeq(s, LAMBDA x : x # e)
Index(s, e) == CHOOSE i \in 1..Len(s) : s[i] = e
In(e) == {l \in DOMAIN lists : e \in Rng(lists[l])}
Gone(e) == [l \in DOMAIN lists |-> Without(lists[l], e)]
Rest == UNCHANGED <<stack, slabs>>

Add(l, e) == /\ In(e) = {} /\ l \notin stale
             /\ lists' = [lists EXCEPT ![l] = <<e>> \o @]
             /\ alone' = alone \ {e} /\ UNCHANGED stale /\ Rest
AddTail(l, e) == /\ In(e) = {} /\ l \notin stale
                 /\ lists' = [lists EXCEPT ![l] = Append(@, e)]
                 /\ alone' = alone \ {e} /\ UNCHANGED stale /\ Rest
Del(e) == /\ In(e) # {} \/ e \in alone
          /\ lists' = Gone(e) /\ alone' = alone \cup {e}
          /\ UNCHANGED stale /\ Rest
Shift(l) == /\ l \notin stale /\ lists[l] # <<>>
            /\ lists' = [lists EXCEPT ![l] = Tail(@)]
            /\ alone' = alone \cup {Head(lists[l])} /\ UNCHANGED stale /\ Rest
ShiftTail(l) ==
    /\ l \notin stale /\ lists[l] # <<>>
    /\ lists' = [lists EXCEPT ![l] = SubSeq(@, 1, Len(@) - 1)]
    /\ alone' = alone \cup {lists[l][Len(lists[l])]} /\ UNCHANGED stale /\ Rest
Move(l, e) == /\ In(e) # {} /\ l \notin stale
              /\ lists' = [Gone(e) EXCEPT ![l] = <<e>> \o @]
              /\ UNCHANGED <<alone, stale>> /\ Rest
MoveTail(l, e) == /\ In(e) # {} /\ l \notin stale
                  /\ lists' = [Gone(e) EXCEPT ![l] = Append(@, e)]
                  /\ UNCHANGED <<alone, stale>> /\ Rest
Swap(l, k) == /\ l \notin stale /\ k \notin stale
              /\ lists' = [lists EXCEPT ![l] = lists[k], ![k] = lists[l]]
              /\ UNCHANGED <<alone, stale>> /\ Rest
Splice(l, k) == /\ l # k /\ l \notin stale /\ k \notin stale
                /\ lists' = [lists EXCEPT ![l] = lists[k] \o @, ![k] = <<>>]
                /\ UNCHANGED <<alone, stale>> /\ Rest
SpliceTail(l, k) ==
    /\ l # k /\ l \notin stale /\ k \notin stale
    /\ lists' = [lists EXCEPT ![l] = @ \o lists[k], ![k] = <<>>]
    /\ UNCHANGED <<alone, stale>> /\ Rest
(* e = 0: everything.  Whatever the head of l says is forgotten.             *)
Cut(l, k, e) ==
    /\ l # k /\ k \notin stale /\ (e = 0 \/ e \in Rng(lists[k]))
    /\ LET q == lists[k]  i == IF e = 0 THEN Len(q) + 1 ELSE Index(q, e) IN
       lists' = [lists EXCEPT ![l] = SubSeq(q, 1, i - 1),
                              ![k] = SubSeq(q, i, Len(q))]
    /\ stale' = stale \ {l} /\ UNCHANGED alone /\ Rest
Discard(l) == /\ l \notin stale
              /\ lists' = [lists EXCEPT ![l] = <<>>]
              /\ stale' = stale \cup {l} /\ UNCHANGED alone /\ Rest
Create(l) == /\ lists' = [lists EXCEPT ![l] = <<>>]
             /\ stale' = stale \ {l} /\ UNCHANGED alone /\ Rest
Purge(l, rem) ==
    /\ l \notin stale
    /\ lists' = [lists EXCEPT ![l] = SelectSeq(@, LAMBDA x : x % 2 # rem)]
    /\ alone' = alone \cup {e \in Rng(lists[l]) : e % 2 = rem}
    /\ UNCHANGED stale /\ Rest

Push(e) == /\ e \notin Rng(stack) /\ stack' = <<e>> \o stack
           /\ UNCHANGED <<lists, stale, alone, slabs>>
Pop == /\ stack' = IF stack = <<>> THEN <<>> ELSE Tail(stack)
       /\ UNCHANGED <<lists, stale, alone, slabs>>
Top == IF stack = <<>> THEN 0 ELSE Head(stack)

SlabAdd(s, n) == /\ s \notin DOMAIN slabs /\ slabs' = slabs @@ (s :> n)
                 /\ UNCHANGED <<lists, stale, alone, stack>>
SlabDel(s) == /\ s \in DOMAIN slabs
              /\ slabs' = [x \in DOMAIN slabs \ {s} |-> slabs[x]]
              /\ UNCHANGED <<lists, stale, alone, stack>>

LInv ==
    /\ \A l, k \in DOMAIN lists : l # k => Rng(lists[l]) \cap Rng(lists[k]) = {}
    /\ \A l \in DOMAIN lists : Cardinality(Rng(lists[l])) = Len(lists[l])
    /\ \A l \in DOMAIN lists : Rng(lists[l]) \cap alone = {}
    /\ \A l \in stale : lists[l] = <<>>
    /\ Cardinality(Rng(stack)) = Len(stack)
=============================================================================

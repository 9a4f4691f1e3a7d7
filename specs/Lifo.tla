-------------------------------- MODULE Lifo --------------------------------
(* A LIFO used by several threads.  An operation takes effect at one moment  *)
(* between its call and its return.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    stack,   \* elements in the list, the newest first
    pend     \* thread -> its operation: [f, e, done, r]

Idle == [f |-> "none", e |-> 0, done |-> FALSE, r |-> 0]
In(e) == \E i \in 1..Len(stack) : stack[i] = e

Call(t, f, e) ==
    /\ pend[t].f = "none"
    /\ pend' = [pend EXCEPT ![t] = [f |-> f, e |-> e, done |-> FALSE, r |-> 0]]
    /\ UNCHANGED stack
Done(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].r = r]
Takes(t, f) == pend[t].f = f /\ ~pend[t].done
Push(t) == /\ Takes(t, "push") /\ ~In(pend[t].e)
           /\ stack' = <<pend[t].e>> \o stack /\ Done(t, 0)
Pop(t) == /\ Takes(t, "pop")
          /\ IF stack = <<>> THEN Done(t, 0) /\ UNCHANGED stack
             ELSE Done(t, Head(stack)) /\ stack' = Tail(stack)
Empty(t) == /\ Takes(t, "empty") /\ UNCHANGED stack
            /\ Done(t, IF stack = <<>> THEN 1 ELSE 0)
Effect(t) == Push(t) \/ Pop(t) \/ Empty(t)
Return(t) == /\ pend[t].done /\ pend' = [pend EXCEPT ![t] = Idle]
             /\ UNCHANGED stack
=============================================================================

------------------------------- MODULE MCLifo --------------------------------
(* The lock-free algorithm, one memory access per step, against Lifo.  Every *)
(* program it runs is emitted.                                               *)
EXTENDS Lifo, Json
CONSTANTS NT,        \* threads
          NE,        \* elements
          MaxOps,    \* operations of a thread
          Modulus    \* of the ABA counter
VARIABLES
    head,    \* [e, c]: element, counter
    next,    \* element -> what its memory says is the next one, as a head
    pc,      \* thread -> [at, tail, nx, e]
    own,     \* thread -> its elements, the last obtained last
    prog,    \* thread -> its operations so far
    start    \* [n: initial elements, own: thread -> number]
vars == <<stack, pend, head, next, pc, own, prog, start>>
T == 1..NT
E == 1..NE
Nothing == [e |-> 0, c |-> 0]
Rest0 == [at |-> "idle", tail |-> Nothing, nx |-> Nothing, e |-> 0]
At(t, a) == pc[t].at = a

(* The elements 1..n are in the list, n + 1.. belong to the threads.         *)
Init ==
    /\ \E n \in 0..NE : \E o \in [T -> 0..1] :
        /\ n + o[1] + (IF NT > 1 THEN o[2] ELSE 0) <= NE
        /\ (NT > 2 => o[3] = 0)
        /\ start = [n |-> n, own |-> o]
        /\ stack = [i \in 1..n |-> n + 1 - i]
        /\ next = [e \in E |-> IF e <= n THEN [e |-> e - 1, c |-> e - 1]
                               ELSE Nothing]
        /\ head = [e |-> n, c |-> n % Modulus]
        /\ own = [t \in T |-> IF o[t] = 0 THEN <<>>
                              ELSE <<n + (IF t = 1 THEN 1 ELSE o[1] + 1)>>]
    /\ pend = [t \in T |-> Idle] /\ pc = [t \in T |-> Rest0]
    /\ prog = [t \in T |-> <<>>]

Begin(t, f, k) ==
    LET e == IF f = "push" THEN own[t][Len(own[t]) - k] ELSE 0 IN
    /\ At(t, "idle") /\ Len(prog[t]) < MaxOps
    /\ Call(t, f, e)
    /\ prog' = [prog EXCEPT ![t] =
                Append(@, IF f = "push" THEN <<f, k>> ELSE <<f>>)]
    /\ pc' = [pc EXCEPT ![t] = [Rest0 EXCEPT !.at = f, !.e = e]]
    /\ own' = IF f # "push" THEN own ELSE
              [own EXCEPT ![t] = SelectSeq(@, LAMBDA x : x # e)]
    /\ UNCHANGED <<head, next, start>>
(* tail = head->next; elem->next = tail; compare and swap.                   *)
PushRead(t) ==
    /\ At(t, "push") /\ pc' = [pc EXCEPT ![t].tail = head, ![t].at = "push1"]
    /\ UNCHANGED <<stack, pend, head, next, own, prog, start>>
PushLink(t) ==
    /\ At(t, "push1") /\ pc' = [pc EXCEPT ![t].at = "push2"]
    /\ next' = [next EXCEPT ![pc[t].e] = pc[t].tail]
    /\ UNCHANGED <<stack, pend, head, own, prog, start>>
PushSwap(t) ==
    /\ At(t, "push2")
    /\ IF head = pc[t].tail
       THEN /\ head' = [e |-> pc[t].e, c |-> (pc[t].tail.c + 1) % Modulus]
            /\ Push(t) /\ pc' = [pc EXCEPT ![t].at = "ret"]
       ELSE pc' = [pc EXCEPT ![t].at = "push"] /\ UNCHANGED <<head, stack, pend>>
    /\ UNCHANGED <<next, own, prog, start>>
PopRead(t) ==
    /\ At(t, "pop")
    /\ IF head.e = 0
       THEN Pop(t) /\ pc' = [pc EXCEPT ![t].at = "ret"]
       ELSE /\ pc' = [pc EXCEPT ![t].tail = head, ![t].at = "pop1"]
            /\ UNCHANGED <<stack, pend>>
    /\ UNCHANGED <<head, next, own, prog, start>>
PopNext(t) ==
    /\ At(t, "pop1")
    /\ pc' = [pc EXCEPT ![t].nx = next[pc[t].tail.e], ![t].at = "pop2"]
    /\ UNCHANGED <<stack, pend, head, next, own, prog, start>>
PopSwap(t) ==
    /\ At(t, "pop2")
    /\ IF head = pc[t].tail
       THEN /\ head' = [e |-> pc[t].nx.e, c |-> pc[t].tail.c]
            /\ Pop(t) /\ pc' = [pc EXCEPT ![t].at = "ret",
                                          ![t].e = pc[t].tail.e]
       ELSE pc' = [pc EXCEPT ![t].at = "pop"] /\ UNCHANGED <<head, stack, pend>>
    /\ UNCHANGED <<next, own, prog, start>>
EmptyRead(t) ==
    /\ At(t, "empty") /\ Empty(t)
    /\ pc' = [pc EXCEPT ![t].at = "ret", ![t].e = IF head.e = 0 THEN 1 ELSE 0]
    /\ UNCHANGED <<head, next, own, prog, start>>
(* The owner of an element writes over it.                                   *)
End(t) ==
    LET e == pc[t].e IN
    /\ At(t, "ret") /\ Return(t) /\ pc' = [pc EXCEPT ![t] = Rest0]
    /\ own' = IF pend[t].f = "pop" /\ e # 0 THEN [own EXCEPT ![t] = Append(@, e)]
              ELSE own
    /\ next' = IF pend[t].f = "pop" /\ e # 0 THEN [next EXCEPT ![e] = Nothing]
               ELSE next
    /\ UNCHANGED <<head, prog, start, stack>>
Step(t) ==
    \/ \E f \in {"pop", "empty"} : Begin(t, f, 0)
    \/ \E k \in 0..1 : k < Len(own[t]) /\ Begin(t, "push", k)
    \/ PushRead(t) \/ PushLink(t) \/ PushSwap(t)
    \/ PopRead(t) \/ PopNext(t) \/ PopSwap(t) \/ EmptyRead(t) \/ End(t)
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars

RECURSIVE Chain(_, _)
Chain(e, n) == IF e = 0 \/ n = 0 THEN <<>>
               ELSE <<e>> \o Chain(next[e].e, n - 1)
Same == Chain(head.e, NE + 1) = stack
Results == \A t \in T : At(t, "ret") /\ pend[t].f # "push" => pend[t].r = pc[t].e
Apart == /\ \A t \in T, i, j \in 1..NE : i < j /\ j <= Len(own[t]) =>
                own[t][i] # own[t][j]
         /\ \A t \in T, i \in 1..NE : i <= Len(own[t]) => ~In(own[t][i])
Over == \A t \in T : At(t, "idle") /\ Len(prog[t]) = MaxOps
Emit == Over => PrintT(<<"SCRIPT", ToJson(<<<<start.n, start.own, prog>>>>)>>)
=============================================================================

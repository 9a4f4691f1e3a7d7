------------------------------- MODULE MCArena -------------------------------
(* Threads of one arena (and another user of the quota), all interleavings   *)
(* of the effects.  Every program is emitted.                                *)
EXTENDS Arena, Json
CONSTANTS NT, MaxOps, Limits, Pres, Masks
VARIABLES prog, start, calls, next
vars == <<avars, prog, start, calls, next>>
T == 1..NT
Init ==
    /\ total \in Limits /\ used = 0
    /\ \E p \in Pres, m \in Masks :
        /\ ar = <<[NoArena EXCEPT !.slab = 2, !.pre = p]>>
        /\ start = <<total, p, m>>
    /\ slabs = <<>> /\ pend = [t \in T |-> Idle]
    /\ prog = [t \in T |-> <<>>] /\ calls = 0 /\ next = 1
Busy(t) == pend[t].f # "none"
LogOp(t, f) == prog' = [prog EXCEPT ![t] = Append(@, f)]
Mine(t) == {s \in Known : slabs[s].out /\ slabs[s].pg % NT = t - 1}
(* The m-th request to the system is refused when bit m of the mask is set.  *)
Refused(k) == (start[3] \div (2 ^ k)) % 2 = 1
Free == CHOOSE s \in 1..20 : s \notin Known /\ \A u \in 1..(s - 1) : u \in Known
Effects(t) ==
    \/ MapCached(t) /\ UNCHANGED <<calls, next>>
    \/ MapCharge(t) /\ UNCHANGED <<calls, next>>
    \/ Unmap(t) /\ UNCHANGED <<calls, next>>
    \/ Look(t) /\ UNCHANGED <<calls, next>>
    \/ QUse(t) /\ UNCHANGED <<calls, next>>
    \/ /\ ar[1].made > ar[1].pre /\ Refused(calls) /\ MapFail(t)
       /\ calls' = calls + 1 /\ UNCHANGED next
    \/ /\ \/ ar[1].made <= ar[1].pre /\ UNCHANGED calls
          \/ ar[1].made > ar[1].pre /\ ~Refused(calls) /\ calls' = calls + 1
       /\ MapMake(t, next) /\ next' = next + 1
Go == \E t \in T :
    \/ /\ ~Busy(t) /\ Len(prog[t]) < MaxOps /\ UNCHANGED <<start, calls, next>>
       /\ \/ Call(t, "map", 1, 0) /\ LogOp(t, "map")
          \/ Call(t, "qused", 1, 0) /\ LogOp(t, "qused")
          \/ t = 1 /\ Call(t, "quse", 1, 1) /\ LogOp(t, "quse")
          \/ \E s \in Mine(t) : Call(t, "unmap", 1, s) /\ LogOp(t, "unmap")
    \/ Effects(t) /\ UNCHANGED <<prog, start>>
    \* The place says who has the slab.
    \/ /\ pend[t].at = "done"
       /\ LET s == pend[t].r IN
          /\ pend' = [pend EXCEPT ![t] = Idle]
          /\ slabs' = IF pend[t].f # "map" \/ s = 0 THEN slabs
                      ELSE [x \in Known \cup {s} |->
                            IF x = s THEN [a |-> 1, pg |-> 100 * NT * s + t - 1,
                                           out |-> TRUE] ELSE slabs[x]]
       /\ UNCHANGED <<total, used, ar, prog, start, calls, next>>
Spec == Init /\ [][Go]_vars
Others == Cardinality({x \in T \X (1..MaxOps) :
            x[2] <= Len(prog[x[1]]) /\ prog[x[1]][x[2]] = "quse"})
Quiet == \A t \in T : ~Busy(t)
(* No slab is charged twice or forgotten, none is had twice.                 *)
Exact ==
    /\ used <= total
    /\ \A t \in T, u \in T : t # u /\ pend[t].at = "done" /\ pend[u].at = "done"
            /\ pend[t].f = "map" /\ pend[u].f = "map" /\ pend[t].r # 0
            => pend[t].r # pend[u].r
    /\ \A t \in T : pend[t].at = "done" /\ pend[t].f = "map" /\ pend[t].r \in Known
            => ~slabs[pend[t].r].out
    /\ Quiet => /\ ar[1].made = Cardinality(Known)
                /\ \E n \in 0..Others : used = ar[1].made * 2 + n
                /\ Len(ar[1].cache) = Cardinality({s \in Known : ~slabs[s].out})
Over == Quiet /\ \A t \in T : Len(prog[t]) = MaxOps
Emit == Over => PrintT(<<"SCRIPT", ToJson(<<<<start, prog>>>>)>>)
==============================================================================

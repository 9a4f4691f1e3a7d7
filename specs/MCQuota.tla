------------------------------- MODULE MCQuota -------------------------------
(* The algorithm of the quota (read the word, then compare and swap it), one *)
(* memory access per step, against Quota.  Every program is emitted.         *)
EXTENDS Quota, Json
CONSTANTS NT, MaxOps, Totals, Sizes
VARIABLES pc, val, prog, start, own
vars == <<qvars, pc, val, prog, start, own>>
T == 1..NT
IAdd(a, b) == a + b
ISub(a, b) == a - b
ILeq(a, b) == a <= b
IUnit(a) == 2 * ((a + 1) \div 2)
Max2 == 20

Init ==
    /\ total \in Totals /\ used = 0 /\ start = total
    /\ limits = [max |-> Max2, min |-> 8]
    /\ les = [t \in T |-> NoLessor] /\ pend = [t \in T |-> Idle]
    /\ pc = [t \in T |-> "idle"] /\ val = [t \in T |-> <<0, 0>>]
    /\ prog = [t \in T |-> <<>>] /\ own = [t \in T |-> 0]
Begin(t, f, n) ==
    /\ pc[t] = "idle" /\ Len(prog[t]) < MaxOps
    /\ f = "release" => IUnit(n) <= own[t]
    /\ Call(t, f, n) /\ pc' = [pc EXCEPT ![t] = "read"]
    /\ prog' = [prog EXCEPT ![t] = Append(@, <<f, n>>)]
    /\ own' = IF f = "release" THEN [own EXCEPT ![t] = @ - IUnit(n)] ELSE own
    /\ UNCHANGED <<val, start>>
(* Reading may already decide: a refusal, or an answer.                      *)
Read(t) ==
    LET n == pend[t].n  f == pend[t].f
        decides == \/ f = "use" /\ used + IUnit(n) > total
                   \/ f = "set" /\ IUnit(n) < used
                   \/ f \in {"both", "used", "total"} IN
    /\ pc[t] = "read"
    /\ IF decides THEN Effect(t) /\ pc' = [pc EXCEPT ![t] = "ret"] /\ val' = val
       ELSE /\ val' = [val EXCEPT ![t] = <<total, used>>]
            /\ pc' = [pc EXCEPT ![t] = "swap"] /\ UNCHANGED qvars
    /\ UNCHANGED <<prog, start, own>>
Swap(t) ==
    LET n == pend[t].n  f == pend[t].f  v == val[t] IN
    /\ pc[t] = "swap"
    /\ IF <<total, used>> = v
       THEN /\ Effect(t) /\ pc' = [pc EXCEPT ![t] = "ret"]
            \* What the code stores is computed from what it has read.
            /\ Assert(<<total', used'>> =
                CASE f = "use" -> <<v[1], v[2] + IUnit(n)>>
                  [] f = "release" -> <<v[1], v[2] - IUnit(n)>>
                  [] f = "set" -> <<IUnit(n), v[2]>>, "stored value")
       ELSE pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED qvars
    /\ UNCHANGED <<val, prog, start, own>>
End(t) ==
    /\ pc[t] = "ret" /\ Return(t) /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ own' = IF pend[t].f = "use" /\ pend[t].ok = 1
              THEN [own EXCEPT ![t] = @ + IUnit(pend[t].n)] ELSE own
    /\ UNCHANGED <<val, prog, start>>
Step(t) == \/ \E f \in {"use", "release"}, n \in Sizes : Begin(t, f, n)
           \/ \E n \in Totals : Begin(t, "set", n)
           \/ Begin(t, "both", 0)
           \/ Read(t) \/ Swap(t) \/ End(t)
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars
RECURSIVE SumOwn(_)
SumOwn(S) == IF S = {} THEN 0
             ELSE LET t == CHOOSE t \in S : TRUE IN
                  own[t] + SumOwn(S \ {t})
Inside == {t \in T : pc[t] # "idle"}
Exact == QInv /\ (Inside = {} => used = SumOwn(T))
Over == \A t \in T : pc[t] = "idle" /\ Len(prog[t]) = MaxOps
Emit == Over => PrintT(<<"SCRIPT", ToJson(<<<<start, prog>>>>)>>)
==============================================================================

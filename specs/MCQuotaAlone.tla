---------------------------- MODULE MCQuotaAlone -----------------------------
(* MCQuota with a scheduler that may stop all threads but one, wherever they *)
(* are: that one finishes its operation within a bounded number of steps.    *)
EXTENDS MCQuota
CONSTANT Bound
VARIABLES alone, left     \* the thread that goes on (0: all do), for how long
avars == <<vars, alone, left>>
AInit == Init /\ alone = 0 /\ left = Bound
ANext ==
    \/ alone = 0 /\ Next /\ UNCHANGED <<alone, left>>
    \/ /\ alone = 0 /\ \E t \in T : pc[t] # "idle" /\ alone' = t
       /\ UNCHANGED <<vars, left>>
    \/ /\ alone # 0 /\ left > 0 /\ pc[alone] # "idle"
       /\ Step(alone) /\ left' = left - 1 /\ UNCHANGED alone
ASpec == AInit /\ [][ANext]_avars
NeverWaits ==
    alone # 0 /\ pc[alone] # "idle" => left > 0 /\ ENABLED Step(alone)
==============================================================================

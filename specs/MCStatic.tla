------------------------------ MODULE MCStatic ------------------------------
EXTENDS Static, Json
CONSTANTS MaxOps, Sizes, Aligns
VARIABLES hist, last
vars == <<svars, hist, last>>
Init ==
    /\ pos = [t \in 1..2 |-> 0] /\ live = [t \in 1..2 |-> {}]
    /\ geo = [size |-> 6, base |-> <<1, 0>>]
    /\ hist = <<>> /\ last = <<>>
LogOp(op) == hist' = Append(hist, op) /\ last' = op
Refused(n, al) == ~Possible(n, al) /\ UNCHANGED svars
Next ==
    /\ Len(hist) < MaxOps
    /\ \E t \in 1..2 :
       \/ \E n \in Sizes, al \in Aligns :
          \/ (Alloc(t, Len(hist) + 1, n, al) \/ Refused(n, al))
             /\ LogOp(<<"alloc", t, n, al>>)
          \/ (Reserve(t, n, al) \/ Refused(n, al))
             /\ LogOp(<<"reserve", t, n, al>>)
       \/ Reset(t) /\ LogOp(<<"reset", t>>)
Spec == Init /\ [][Next]_vars
(* Nothing handed out is lost unless the buffer starts over.                 *)
Window == [][\A t \in 1..2 :
    \/ live[t] \subseteq live'[t]
    \/ last'[2] = t /\ (last'[1] = "reset"
                       \/ ~InRest(t, last'[3], last'[4]))]_vars
View == <<pos, live, last>>
Emit == PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

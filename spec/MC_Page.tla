-------------------------------- MODULE MC_Page --------------------------------
EXTENDS Page, TLC, Json, CSV, IOUtils
CONSTANTS MaxDev, Depth
VARIABLE app
Ops(a) == IF a = "mvp" THEN {"lock", "unlock", "pay", "info"} ELSE {"lock", "unlock", "pay"}
(* calls with at most MaxDev fields that are not plain *)
Devs(op) == { d \in SUBSET DOMAIN Fields(op) : Cardinality(d) <= MaxDev }
Choices(op, d) == { g \in [d -> UNION { Classes(Fields(op)[f]) : f \in d }] : \A f \in d : g[f] \in Classes(Fields(op)[f]) }
Init == Start /\ app \in {"berkeley", "mvp"}
Next == /\ UNCHANGED app
        /\ \/ Len(log) < Depth /\ \E op \in Ops(app) : \E d \in Devs(op) : \E g \in Choices(op, d) :
                Begin([op |-> op, fields |-> [f \in DOMAIN Fields(op) |-> IF f \in d THEN g[f] ELSE Plain(Fields(op)[f])]])
           \/ Arrive \/ Lose \/ Return
Spec == Init /\ [][Next]_<< vars, app >>
Inv == NodeDidWhatWasAsked /\ RefusedCallsSendNothing /\ AnswerOnlyFromNode
Export == (call = None /\ Len(log) = Depth) => CSVWrite("%1$s", << ToJson([app |-> app, log |-> log, node |-> node]) >>, IOEnv.OUT)
================================================================================

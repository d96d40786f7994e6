------------------------------- MODULE MC_Crawler -------------------------------
EXTENDS Crawler, TLC, Json, CSV, IOUtils
CONSTANTS MaxList, NameCount
NameSet == 1..NameCount
Widths == {1, 8}
Lists == UNION { [1..k -> Names] : k \in 0..MaxList }
Old == [Names -> {"none", "old"}]
VARIABLE ok0, no0
InOrder(l) == \A j \in DOMAIN l : l[j] <= 1 + Cardinality({ l[i] : i \in 1..j - 1 })    \* the names are interchangeable
Init == /\ listed \in BOOLEAN /\ list \in { l \in Lists : InOrder(l) } /\ width \in Widths /\ fault \in {"none", "crash", "refuse"}
        /\ outcome \in [Names -> Outcomes] /\ ok0 \in Old /\ no0 \in Old /\ ok = ok0 /\ no = no0
        /\ \A n \in Names : ~Listed(n) => outcome[n] = "good"
        /\ \A n \in Names : ok0[n] = "none" \/ outcome[n] \in {"good", "bad"}
        /\ \A n \in Names : outcome[n] = "unnamed" => no0[n] = "none"
        /\ Len(list) < 2 => width = 1
        /\ listed \/ list = << >>
        /\ \A n \in Names : outcome[n] = "unnamed" => fault = "none"
        /\ (fault # "none") => \E n \in Names : Listed(n) /\ ok0[n] = "none" /\ outcome[n] \in {"good", "bad"}
        /\ pc = [j \in Jobs |-> "wait"] /\ asked = << >> /\ died = FALSE
Next == Step /\ UNCHANGED << ok0, no0 >>
Spec == Init /\ [][Next]_<< vars, ok0, no0 >>
Inv == Right /\ OneVerdict /\ Complete /\ Kept
Untouched == ~listed => ok = ok0 /\ no = no0 /\ asked = << >>
Export == Over => CSVWrite("%1$s", << ToJson([listed |-> listed, list |-> list, outcome |-> outcome, width |-> width, fault |-> fault, ok0 |-> ok0, no0 |-> no0,
                                              ok |-> ok, no |-> no, asked |-> asked, died |-> died]) >>, IOEnv.OUT)
=================================================================================

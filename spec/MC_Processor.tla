---------------------------- MODULE MC_Processor ----------------------------
(* Every schedule of network, frontier and query steps up to a depth.        *)
EXTENDS Processor, TLC, Json, CSV, IOUtils
CONSTANTS Depth, MaxBlocks, MaxReqs, Bad
VARIABLES s, log
vars == << s, log >>
View(t) == [added |-> t.added, queried |-> t.queried, adding |-> t.adding, querying |-> t.querying,
            addblocked |-> AddBlocked(t), queryblocked |-> QueryBlocked(t), netwaiting |-> NetWaiting(t)]
Init == s = Empty0 /\ log = << >>
Step(a) == LET t == Do(s, a) IN s' = t /\ log' = Append(log, [a |-> a, view |-> View(t)])
Next == /\ Len(log) < Depth
        /\ \E a \in Actions : /\ Able(s, a)
                              /\ a \in {"pushbad", "respondbad", "failadd", "failquery"} => Bad
                              /\ a \in {"push", "pushbad", "respond", "respondbad"} => s.nb < MaxBlocks
                              /\ a = "request" => s.nr < MaxReqs
                              /\ Step(a)
Spec == Init /\ [][Next]_vars
IsPrefix(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
Ids(q) == [i \in 1..Len(q) |-> q[i].id]
Good == LET F(b) == b.good IN SelectSeq(s.sent, F)
(* convertible blocks reach the frontier once each, in the order they were   *)
(* sent; requests reach the network once each, in order                      *)
InOrder == IsPrefix(s.added, Ids(Good)) /\ s.queried = [i \in 1..Len(s.queried) |-> i]
(* nothing gets lost: what was sent is handed over, queued, or held by a waiting sender *)
Nothing == /\ Len(s.sent) = Len(s.added) + Len(s.chanB) + Len(s.waitB) + Cardinality({ i \in 1..Len(s.sent) - Len(s.chanB) - Len(s.waitB) : ~s.sent[i].good })
           /\ s.nr = Len(s.queried) + Len(s.chanR) + Len(s.waitR)
(* an idle side has nothing to do *)
Busy == (s.adding = 0 => s.chanB = << >> /\ s.waitB = << >>) /\ (s.querying = 0 => s.chanR = << >>)
NoDeadlock == ~Deadlocked(s)
Export == (Len(log) = Depth \/ ~ENABLED Next) => CSVWrite("%1$s", << ToJson([log |-> log]) >>, IOEnv.OUT)
=============================================================================

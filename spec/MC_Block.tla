------------------------------ MODULE MC_Block ------------------------------
(* Every walk between representations that starts and ends on the wire, with *)
(* every document of at most MaxOdd leaves that are not plain.               *)
EXTENDS Block, TLC, Json, CSV, IOUtils
CONSTANTS MaxHops, MaxOdd
VARIABLES rep, doc, lost, log
vars == << rep, doc, lost, log >>
Strange(l) == l.class \in Odd[l.kind]
Docs == { {l} : l \in Leaves }
  \cup (IF MaxOdd < 2 THEN {} ELSE { {l, m} : l \in { x \in Leaves : Strange(x) }, m \in { x \in Leaves : Strange(x) } })
Init == rep = "wire" /\ doc \in Docs /\ lost = {} /\ log = << >>
Over == log # << >> /\ (rep = "wire" \/ log[Len(log)].verdict = "refuse")
Move(to) ==
  /\ << rep, to >> \in Edges /\ Len(log) < MaxHops /\ ~Over
  /\ LET v == Verdict(doc, rep, to) IN
     /\ log' = Append(log, [to |-> to, verdict |-> v])
     /\ rep' = IF v = "refuse" THEN rep ELSE to
     /\ lost' = lost \cup Resets(doc, rep, to)
  /\ UNCHANGED doc
Next == \E to \in Reps : Move(to)
Spec == Init /\ [][Next]_vars
TypeOK == rep \in Reps /\ doc \subseteq Leaves /\ lost \subseteq doc
(* a document of plain leaves is never refused and nothing of it is lost *)
PlainMoves == (\A l \in doc : ~Strange(l)) => lost = {} /\ \A i \in DOMAIN log : log[i].verdict = "ok"
(* what is not a document of the layout gets no further than the wire *)
MalformedStays == (\E l \in doc : Malformed(l)) => rep = "wire" /\ Len(log) <= 1
(* nothing but the parts JSON has no place for is ever lost, and those only there *)
OnlyProto == \A l \in lost : l.kind = "proto"
OnlyThroughJson == lost # {} => \E i \in DOMAIN log : log[i].to = "json"
(* once past a representation no document is refused by it again *)
Settled == \A i, j \in DOMAIN log : i < j /\ log[j].verdict = "refuse" => log[j].to # log[i].to
(* documents are refused by the same representations whichever way they come *)
Inv == TypeOK /\ PlainMoves /\ MalformedStays /\ OnlyProto /\ OnlyThroughJson /\ Settled
Export == Over => CSVWrite("%1$s", << ToJson([doc |-> doc, log |-> log, lost |-> lost # {}]) >>, IOEnv.OUT)
=============================================================================

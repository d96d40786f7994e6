------------------------------ MODULE MC_Answer ------------------------------
(* Answers to a block request: the best chain and the Merkle paths of        *)
(* accounts, keyed by address.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxEntries, MaxPath
VARIABLES best, entries
vars == << best, entries >>
Keys == {"address", "checksum", "plain", "longaddress"}
Steps == {"left", "right", "lefttop", "both", "none", "over", "huge", "text", "number"}
GoodStep == {"left", "right", "lefttop"}
Leafs == {"number", "top", "over", "huge", "empty", "negative", "hex", "absent", "json"}
GoodLeaf == {"number", "top"}
Paths == UNION { [1..n -> GoodStep] : n \in 1..MaxPath } \cup { << >> } \cup
         { << s >> : s \in Steps } \cup { << "left", s >> : s \in Steps } \cup { << s, "right" >> : s \in Steps }
Entry == [key : {"address"}, path : Paths, leaf : {"number"}] \cup [key : {"address"}, path : {<< "left", "right" >>}, leaf : Leafs]
         \cup [key : Keys, path : { << >>, << "right" >> }, leaf : {"number", "huge"}]
Best == { << >>, << "good" >>, << "bad" >>, << "good", "bad" >>, << "bad", "good" >>, << "other", "good" >> }
GoodEntry(e) == e.path # << >> /\ (\A i \in 1..Len(e.path) : e.path[i] \in GoodStep) /\ e.leaf \in GoodLeaf
Relevant == { i \in 1..Len(entries) : entries[i].key = "address" }
Accepts == best # << >> /\ best[1] # "bad" /\ \A i \in Relevant : GoodEntry(entries[i])
(* the path goes from the leaf to the root; its node is a left child where "left" is said *)
Bit(s) == IF s = "right" THEN 1 ELSE 0
RECURSIVE Row(_, _)
Row(p, k) == IF k > Len(p) THEN 0 ELSE Bit(p[k]) + 2 * Row(p, k + 1)
Node(p, k) == 2 ^ (Len(p) - k + 1) - 1 + Row(p, k)
Peer(p, k) == IF Bit(p[k]) = 0 THEN Node(p, k) + 1 ELSE Node(p, k) - 1
Proof(e) == [index |-> Node(e.path, 1), peers |-> [k \in 1..Len(e.path) |-> Peer(e.path, k)], leaf |-> e.leaf]
Init == best \in Best /\ entries = << >>
Next == Len(entries) < MaxEntries /\ UNCHANGED best /\ \E e \in Entry : entries' = Append(entries, e)
Spec == Init /\ [][Next]_vars
(* all nodes of a path lie on the way from one leaf to the root *)
Chained == \A i \in Relevant : GoodEntry(entries[i]) => \A k \in 1..Len(entries[i].path) - 1 :
             LET p == entries[i].path IN (Node(p, k) - 1) \div 2 = Node(p, k + 1) /\ (Peer(p, k) - 1) \div 2 = Node(p, k + 1) /\ Peer(p, k) # Node(p, k)
Export == CSVWrite("%1$s", << ToJson([best |-> best, entries |-> entries, ok |-> Accepts,
                                      proofs |-> IF Accepts THEN [i \in 1..Len(entries) |-> IF i \in Relevant THEN Proof(entries[i]) ELSE [index |-> -1]] ELSE << >>]) >>, IOEnv.OUT)
=============================================================================

------------------------------ MODULE MC_Merkle ------------------------------
(* Every history of up to MaxOps batches, root requests and proof requests,  *)
(* with the answers the specification prescribes.                            *)
EXTENDS Merkle, Json, CSV, IOUtils
CONSTANTS MaxOps, MaxLeaves, Batches, Modes
VARIABLES mg, mode, leaves, ops, ans
vars == << mg, mode, leaves, ops, ans >>
Vals(k) == [i \in 1..k |-> (Len(leaves) + i) % 5]
RootAns == IF Overfull(mode, leaves) THEN "refuse" ELSE Root(mg, mode, leaves)
ProofAns(i) == [index |-> ProofIndex(mode, leaves, i), peers |-> PathIdx(ProofIndex(mode, leaves, i))]
Init == mg \in Mergers /\ mode \in Modes /\ leaves = << >> /\ ops = << >> /\ ans = << >>
Do(o, a, l) == /\ Len(ops) < MaxOps
               /\ ops' = Append(ops, o) /\ ans' = Append(ans, a) /\ leaves' = l /\ UNCHANGED << mg, mode >>
Add(k) == /\ Len(leaves) + k <= MaxLeaves
          /\ Do([op |-> "add", k |-> k, v |-> Vals(k)], [n |-> Len(leaves) + k, h |-> TreeHeight(mode, leaves \o Vals(k))], leaves \o Vals(k))
Ask == Do([op |-> "root"], [root |-> RootAns], leaves)
Prove(i) == /\ HasProof(mode, leaves) /\ i < Len(leaves)
            /\ Do([op |-> "proof", i |-> i], ProofAns(i), leaves)
NoProof == ~HasProof(mode, leaves) /\ ~Overfull(mode, leaves) /\ Do([op |-> "proof", i |-> 0], [none |-> TRUE], leaves)
Next == Ask \/ NoProof \/ (\E k \in Batches : Add(k)) \/ (\E i \in {0, Len(leaves) - 1} : i >= 0 /\ Prove(i))
Spec == Init /\ [][Next]_vars

Complete == (HasProof(mode, leaves) /\ (Len(ops) = 0 \/ ops[Len(ops)].op # "add")) => \A i \in 0..(Len(leaves) - 1) :
              ProofRoot(mg, ProofIndex(mode, leaves, i), leaves[i + 1], PathIdx(ProofIndex(mode, leaves, i)), PeerHashes(mg, mode, leaves, i))
                = Root(mg, mode, leaves)
Case == [mg |-> mg, mode |-> mode, ops |-> ops, ans |-> ans,
         final |-> [root |-> RootAns, proofs |-> IF HasProof(mode, leaves) THEN [i \in 1..Len(leaves) |-> ProofAns(i - 1)] ELSE << >>]]
Export == Len(ops) = MaxOps => CSVWrite("%1$s", << ToJson(Case) >>, IOEnv.OUT)
=============================================================================

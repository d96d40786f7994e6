----------------------------- MODULE MC_ProofParts ------------------------------
EXTENDS ProofParts, TLC, Json, CSV, IOUtils
CONSTANT Long
Big == {"zero", "one", "top", "low", "high", "any"}
(* few numbers in long lists; random walks have all *)
Init == Start /\ (Long => Many(kind))
Next == \E e \in Elements(kind) : Tell(e)
Spec == Init /\ [][Next]_vars
Export == (Whole /\ (Long => Len(part) = MaxLen)) => CSVWrite("%1$s", << ToJson([kind |-> kind, curve |-> curve, part |-> part, given |-> given]) >>, IOEnv.OUT)
=================================================================================

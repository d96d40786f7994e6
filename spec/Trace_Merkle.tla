---------------------------- MODULE Trace_Merkle ----------------------------
(* Validates recorded histories of real trees: every root, height, count and *)
(* proof that was observed is the one the leaves added so far call for.      *)
EXTENDS Merkle, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, j, leaves
vars == << i, j, leaves >>
r == Trace[i]
Init == i \in 1..Len(Trace) /\ j = 0 /\ leaves = << >>
Next == /\ j < Len(r.ops)
        /\ j' = j + 1 /\ i' = i
        /\ leaves' = IF r.ops[j + 1].op = "add" THEN leaves \o r.ops[j + 1].v ELSE leaves
Spec == Init /\ [][Next]_vars
(* state after step j; the answer of step j *)
a == r.ans[j]
o == r.ops[j]
Expect == CASE o.op = "add"   -> [n |-> Len(leaves), h |-> TreeHeight(r.mode, leaves)]
            [] o.op = "root"  -> [root |-> Root(r.mg, r.mode, leaves)]
            [] o.op = "proof" -> IF HasProof(r.mode, leaves)
                                 THEN LET x == ProofIndex(r.mode, leaves, o.i) IN
                                      [index |-> x, peers |-> PathIdx(x), verified |-> TRUE, nh |-> TreeHeight(r.mode, leaves)]
                                 ELSE [none |-> TRUE]
Conforms == j > 0 => a = Expect
Alias == [i |-> i, step |-> j, op |-> IF j > 0 THEN o ELSE << >>, got |-> IF j > 0 THEN a ELSE << >>, expected |-> IF j > 0 THEN Expect ELSE << >>]
=============================================================================

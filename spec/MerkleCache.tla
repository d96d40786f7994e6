----------------------------- MODULE MerkleCache -----------------------------
(* The lazily evaluated tree: hashes of inner nodes are kept in an array and *)
(* dropped on the way from a new leaf to the root.  Every history of batches *)
(* and root requests up to MaxLeaves leaves is explored; the invariant is    *)
(* that evaluation through the cache always gives the abstract root.         *)
EXTENDS Merkle, FiniteSets, Integers
CONSTANTS MaxLeaves, MaxBatch, EarlyBreak
VARIABLES mg, n, nodes
vars == << mg, n, nodes >>
Count(h) == 2^h - 1
Leaves(k) == [i \in 1..k |-> i]
ht == Height(n)
Fresh(h) == [i \in 0..(Count(h) - 1) |-> None]

(* evaluation with memo: returns the new node array *)
RECURSIVE Eval(_, _)
Val(nd, i) == IF i < Count(ht) THEN nd[i] ELSE IF i - Count(ht) < n THEN Leaf(i - Count(ht) + 1) ELSE None
Eval(nd, i) ==
  IF i >= Count(ht) THEN nd
  ELSE IF nd[i] # None THEN nd
  ELSE LET a == Eval(nd, 2 * i + 1)
           b == Eval(a, 2 * i + 2)
       IN [b EXCEPT ![i] = Merge(mg, Val(b, 2 * i + 1), Val(b, 2 * i + 2), ht - Depth(i))]

(* dropping the cached hashes above one new leaf *)
RECURSIVE Clear(_, _)
Clear(nd, i) ==
  IF i = 0 THEN nd
  ELSE LET p == Parent(i) IN
       IF EarlyBreak /\ nd[p] = None THEN nd ELSE Clear([nd EXCEPT ![p] = None], p)
RECURSIVE ClearAll(_, _, _)
ClearAll(nd, i, j) == IF i > j THEN nd ELSE ClearAll(Clear(nd, i), i + 1, j)

Init == mg \in Mergers /\ n = 0 /\ nodes = Fresh(0)
Add(k) == /\ n + k <= MaxLeaves
          /\ n' = n + k
          /\ nodes' = IF Height(n + k) # ht THEN Fresh(Height(n + k))
                      ELSE ClearAll(nodes, Count(ht) + n, Count(ht) + n + k - 1)
          /\ UNCHANGED mg
Ask == nodes' = Eval(nodes, 0) /\ UNCHANGED << mg, n >>
Next == Ask \/ \E k \in 0..MaxBatch : Add(k)
Spec == Init /\ [][Next]_vars

Consistent == LET e == Eval(nodes, 0) IN Val(e, 0) = Root(mg, 99, Leaves(n))
(* a cached hash is the hash of its subtree, whenever it was computed *)
CacheRight == \A i \in DOMAIN nodes : nodes[i] # None =>
                nodes[i] = Sub(mg, Leaves(n), ht - Depth(i), i - Count(Depth(i)))
=============================================================================

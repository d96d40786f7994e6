--------------------------- MODULE MC_MerkleProof ---------------------------
(* Proofs, genuine and forged: what each evaluates to, and whether it is     *)
(* accepted for the root of a given tree.                                    *)
EXTENDS Merkle, Json, CSV, IOUtils, FiniteSets
CONSTANTS MaxLeaves, Modes
VARIABLES mg, mode, n, prf, how
vars == << mg, mode, n, prf, how >>
Leaves == [i \in 1..n |-> i]
Genuine(i) == [index |-> ProofIndex(mode, Leaves, i), item |-> i + 1, pi |-> PathIdx(ProofIndex(mode, Leaves, i)), ph |-> PeerHashes(mg, mode, Leaves, i)]
Drop(s) == SubSeq(s, 1, Len(s) - 1)
Subterms == { Leaf(v) : v \in 1..n } \cup { None, Leaf(99), Empty(0), Empty(1), Sub(mg, Leaves, 1, 0), Sub(mg, Leaves, 1, 1), Sub(mg, Leaves, 2, 0) }
Shifted(p) == [j \in 1..Len(p) |-> p[j] + 1]
(* the neighbour on the other side of the node whose sibling is x: it stands *)
(* next to the path as well, but is not its sibling                          *)
Other(x) == IF x % 2 = 1 THEN x + 2 ELSE x - 2
(* every sibling on the side where p has it, whatever the place says         *)
RECURSIVE Up(_, _)
Up(x, l) == IF l = 0 THEN x ELSE Up(Parent(x), l - 1)
AsIn(p, l, x) == IF Up(p.index, l - 1) % 2 = 1 THEN x + 1 ELSE x - 1
Forge(p) ==
  { << "genuine", p >> }
  \cup { << "item", [p EXCEPT !.item = v] >> : v \in (1..n) \cup {99} }
  \cup { << "index", [p EXCEPT !.index = x] >> : x \in {0, 1, 2, Parent(p.index), Sibling(p.index), p.index + 1, 2 * p.index + 1} }
  \cup { << "move", [p EXCEPT !.index = x, !.pi = PathIdx(x)] >> : x \in (2^TreeHeight(mode, Leaves) - 1)..(2^TreeHeight(mode, Leaves) + n) }
  \cup UNION { { << "peer", [p EXCEPT !.ph[l] = t] >> : t \in Subterms } : l \in 1..Len(p.ph) }
  \cup { << "short", [p EXCEPT !.pi = Drop(p.pi), !.ph = Drop(p.ph)] >>, << "short", [p EXCEPT !.ph = Drop(p.ph)] >>,
         << "short", [p EXCEPT !.pi = Drop(p.pi)] >>, << "short", [p EXCEPT !.pi = Tail(p.pi), !.ph = Tail(p.ph)] >>,
         << "long", [p EXCEPT !.pi = Append(p.pi, 1), !.ph = Append(p.ph, None)] >>,
         << "long", [p EXCEPT !.pi = Append(p.pi, 0), !.ph = Append(p.ph, Leaf(1))] >>,
         << "long", [p EXCEPT !.ph = Append(p.ph, Leaf(1))] >>,
         << "shift", [p EXCEPT !.pi = Shifted(p.pi)] >>,
         << "mirror", [p EXCEPT !.pi = [j \in 1..Len(p.pi) |-> Other(p.pi[j])]] >>,
         << "none", [p EXCEPT !.pi = << >>, !.ph = << >>] >> }
  \cup { << "side", [p EXCEPT !.pi[l] = x] >> : l \in 1..Len(p.pi), x \in {0, 1, p.index} }
  \cup UNION { { << "side", [p EXCEPT !.pi[l] = x] >> : x \in {Other(p.pi[l]), Sibling(p.pi[l]), p.pi[l] + 2, 2 * p.pi[l] + 1, Parent(p.pi[l])} } : l \in 1..Len(p.pi) }
  \cup { << "place", [p EXCEPT !.index = x, !.pi = [l \in 1..Len(p.pi) |-> AsIn(p, l, Up(x, l - 1))]] >> : x \in (2^TreeHeight(mode, Leaves) - 1)..(2^TreeHeight(mode, Leaves) + n) }
  \cup { << "up", [p EXCEPT !.index = Parent(p.index), !.item = v, !.pi = Tail(p.pi), !.ph = Tail(p.ph)] >> : v \in {1, 99} }
Init == /\ mg \in Mergers /\ mode \in Modes /\ n \in 1..MaxLeaves
        /\ HasProof(mode, Leaves)
        /\ \E i \in 0..(n - 1) : \E f \in Forge(Genuine(i)) : how = f[1] /\ prf = f[2]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Eval == ProofRoot(mg, prf.index, prf.item, prf.pi, prf.ph)
Root_ == Root(mg, mode, Leaves)
Accept == Eval = Root_
Pos == prf.index - (2^TreeHeight(mode, Leaves) - 1)
Complete == how = "genuine" => Accept
(* an accepted proof shows an item that is in the tree at that very place;   *)
(* the duplicating merger makes the padding provable as well                 *)
Sound == Accept => IF Pos \in 0..(n - 1) THEN prf.item = Leaves[Pos + 1] ELSE mg = "dup" /\ prf.item \in 1..n
Case == [mg |-> mg, p |-> prf, how |-> how, eval |-> Eval, root |-> Root_, accept |-> Accept, mode |-> mode, n |-> n]
Export == CSVWrite("%1$s", << ToJson(Case) >>, IOEnv.OUT)
=============================================================================

------------------------------- MODULE Merkle -------------------------------
(* Merkle trees over a list of leaves.  Hashes are symbolic terms (strings), *)
(* so that two hashes are equal only if they are built from the same data;   *)
(* None is the absent hash.  What a tree answers is a function of its leaves *)
(* (and of its height when that is fixed) and of nothing else: not of how    *)
(* the leaves were batched, nor of when roots or proofs were asked for.      *)
EXTENDS Integers, Sequences, TLC
None == ""

(* mergers: opt   keeps absent children apart, an empty pair stays absent    *)
(*          total replaces an absent child by the hash of an empty subtree   *)
(*          dup   repeats the left child, an empty pair stays absent         *)
Mergers == { "opt", "total", "dup" }
Leaf(v)  == "L" \o ToString(v)
Empty(h) == "E" \o ToString(h)
Pair(l, r, h) == "(" \o l \o "," \o r \o ")" \o ToString(h)
Total(l, r, h) == IF l = Empty(h - 1) /\ r = Empty(h - 1) THEN Empty(h) ELSE Pair(l, r, h)
Merge(mg, l, r, h) ==
  CASE mg = "total" -> Total(IF l = None THEN Empty(h - 1) ELSE l, IF r = None THEN Empty(h - 1) ELSE r, h)
    [] l = None /\ r = None -> None
    [] mg = "dup" /\ r = None -> Pair(l, l, h)
    [] OTHER -> Pair(IF l = None THEN "_" ELSE l, IF r = None THEN "_" ELSE r, h)

(* number of levels above the leaves of a tree that just holds n of them *)
RECURSIVE HeightFrom(_, _)
HeightFrom(n, h) == IF 2^h >= n THEN h ELSE HeightFrom(n, h + 1)
Height(n) == HeightFrom(n, 0)

(* hash of the k-th subtree of height h *)
RECURSIVE Sub(_, _, _, _)
Sub(mg, leaves, h, k) ==
  IF h = 0 THEN (IF k < Len(leaves) THEN Leaf(leaves[k + 1]) ELSE None)
  ELSE Merge(mg, Sub(mg, leaves, h - 1, 2 * k), Sub(mg, leaves, h - 1, 2 * k + 1), h)
(* mode: 99 the height follows the number of leaves, otherwise it is fixed *)
TreeHeight(mode, leaves) == IF mode = 99 THEN Height(Len(leaves)) ELSE mode
Overfull(mode, leaves) == mode # 99 /\ Height(Len(leaves)) > mode
Root(mg, mode, leaves) == Sub(mg, leaves, TreeHeight(mode, leaves), 0)

(* Nodes are numbered from the root (0), level by level, left to right. *)
Depth(i)    == HeightFrom(i + 2, 0) - 1
Parent(i)   == (i - 1) \div 2
Sibling(i)  == IF i % 2 = 1 THEN i + 1 ELSE i - 1
(* a proof: node index of the item, the item, and the sibling of every node  *)
(* on the way up to the root                                                 *)
ProofIndex(mode, leaves, i) == 2^TreeHeight(mode, leaves) - 1 + i
RECURSIVE PathIdx(_)
PathIdx(i) == IF i = 0 THEN << >> ELSE << Sibling(i) >> \o PathIdx(Parent(i))
PeerHashes(mg, mode, leaves, i) ==
  [l \in 1..TreeHeight(mode, leaves) |->
     LET k == i \div 2^(l - 1) IN Sub(mg, leaves, l - 1, IF k % 2 = 0 THEN k + 1 ELSE k - 1)]
HasProof(mode, leaves) == Len(leaves) > 0 /\ TreeHeight(mode, leaves) > 0 /\ ~Overfull(mode, leaves)

(* what a proof evaluates to: a root hash, or "!" if it is not a proof at all *)
RECURSIVE Climb(_, _, _, _, _)
Climb(mg, i, h, l, ph) ==
  IF i = 0 THEN h
  ELSE Climb(mg, Parent(i), IF i % 2 = 1 THEN Merge(mg, h, ph[l], l) ELSE Merge(mg, ph[l], h, l), l + 1, ph)
ProofRoot(mg, index, item, pi, ph) ==
  IF index = 0 \/ Len(pi) # Len(ph) \/ pi # PathIdx(index) THEN "!"
  ELSE Climb(mg, index, Leaf(item), 1, ph)
=============================================================================

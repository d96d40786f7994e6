---------------------------- MODULE MC_MerklePath ----------------------------
(* Merkle paths as published by a node: from the leaf up, each step names    *)
(* the sibling, as "left" when the sibling stands for the right neighbour    *)
(* (the path's own node is the left child) and as "right" otherwise.  A step *)
(* with both or with none is an error, and so is a path without steps.       *)
(* Node metadata: depth and height of a node at the edges of a level.        *)
EXTENDS Merkle, SequencesExt, Json, CSV, IOUtils
CONSTANTS MaxLen, MaxLevel
VARIABLES path, kind
vars == << path, kind >>
Steps == { "l", "r" }
Bad   == { "lr", "-" }
Init == \/ kind = "path" /\ path = << >>
        \/ kind = "meta" /\ path = << >>
Extend == /\ kind = "path" /\ Len(path) < MaxLen
          /\ \A i \in 1..Len(path) : path[i] \in Steps
          /\ \E s \in Steps \cup Bad : path' = Append(path, s)
          /\ UNCHANGED kind
(* a bad step somewhere below good ones *)
AfterBad == /\ kind = "path" /\ Len(path) \in 1..(MaxLen - 1) /\ path[Len(path)] \in Bad
            /\ path' = Append(path, "l") /\ UNCHANGED kind
Next == Extend \/ AfterBad
Spec == Init /\ [][Next]_vars

RECURSIVE Row(_)
Row(p) == IF p = << >> THEN 0 ELSE (IF p[1] = "r" THEN 1 ELSE 0) + 2 * Row(Tail(p))
Ok == path # << >> /\ \A i \in 1..Len(path) : path[i] \in Steps
Index == 2^Len(path) - 1 + Row(path)
Hashes == [i \in 1..Len(path) |-> Leaf(100 + i)]
Eval(mg) == ProofRoot(mg, Index, 7, PathIdx(Index), Hashes)
(* the row of a node is read off its path: left is even, right is odd *)
Reads == Ok => /\ Len(PathIdx(Index)) = Len(path)
               /\ \A i \in 1..Len(path) : (PathIdx(Index)[i] % 2 = 0) <=> path[i] = "l"
PathCase == [kind |-> kind, path |-> path, ok |-> Ok, index |-> IF Ok THEN Index ELSE 0,
             peers |-> IF Ok THEN PathIdx(Index) ELSE << >>,
             eval |-> [mg \in Mergers |-> IF Ok THEN Eval(mg) ELSE "!"]]
(* nodes at distance off from the first (from = "first") or last node of a level *)
MetaOk(l, from, off) == off < 2^(IF l > 8 THEN 8 ELSE l)
Metas == { [kind |-> "meta", level |-> l, from |-> f, off |-> o, tree |-> t, depth |-> l, height |-> t - l] :
             l \in 0..MaxLevel, f \in {"first", "last"}, o \in 0..3, t \in {0, 1, 5, 20, 35, 63} }
(* very long paths: the outermost path of a tree of that many levels *)
Fold(mg, side, len) ==
  FoldLeft(LAMBDA h, l : IF side = "l" THEN Merge(mg, h, Leaf(100 + l), l) ELSE Merge(mg, Leaf(100 + l), h, l), Leaf(7), [l \in 1..len |-> l])
Longs == { [kind |-> "long", path |-> [i \in 1..n |-> s], ok |-> n <= 63, side |-> s,
            eval |-> [mg \in Mergers |-> IF n <= 63 THEN Fold(mg, s, n) ELSE "!"]] : n \in {20, 29, 30, 31, 35, 48, 53, 62, 63, 64, 70, 200}, s \in Steps }
Export == IF kind = "path" THEN CSVWrite("%1$s", << ToJson(PathCase) >>, IOEnv.OUT)
          ELSE /\ \A m \in Metas : (m.tree >= m.level /\ MetaOk(m.level, m.from, m.off)) => CSVWrite("%1$s", << ToJson(m) >>, IOEnv.OUT)
               /\ \A m \in Longs : CSVWrite("%1$s", << ToJson(m) >>, IOEnv.OUT)
=============================================================================

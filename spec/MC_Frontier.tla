----------------------------- MODULE MC_Frontier -----------------------------
(* The transition frontier: blocks are verified, weighed against the best    *)
(* chain, and bring the proofs of the sparse ledger with them.  For mainnet  *)
(* ("legacy") variant 2 of a block contains a command that is not valid; for *)
(* berkeley it is the same block with other proofs.                          *)
EXTENDS ForkChoice, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Few
VARIABLES net, best, ledger, log
vars == << net, best, ledger, log >>
W(x) == [i \in 1..SubWindows |-> x]
Base == [len |-> 5, vrf |-> 2, hash |-> 2, epoch |-> 3, slk |-> 1, nlk |-> 1, slot |-> 22000, spe |-> SlotsPerEpoch, mwd |-> 40, win |-> W(6), id |-> 0]
Far(c) == [c EXCEPT !.slk = 2]
Pool == << Base, [Base EXCEPT !.len = 6], [Base EXCEPT !.vrf = 3], [Base EXCEPT !.hash = 3], [Base EXCEPT !.len = 0],
           Far([Base EXCEPT !.len = 0, !.mwd = 50]), Far([Base EXCEPT !.mwd = 60, !.len = 4]), Far([Base EXCEPT !.win[2] = 9, !.mwd = 77]),
           [Base EXCEPT !.epoch = 4, !.slot = 22003, !.len = 7], Far([Base EXCEPT !.win = << 1, 2 >>, !.len = 9]),
           [Base EXCEPT !.hash = 1, !.len = 0], Far([Base EXCEPT !.len = Big + 647, !.mwd = 20]) >>
Used == IF Few THEN 1..9 ELSE 1..Len(Pool)
Block(k) == [Pool[k] EXCEPT !.id = k]
(* state: the best chain's only block, the event whose proofs are the ledger *)
Result(k, v) ==
  IF net = "legacy" /\ v = 2 THEN [best |-> best, ledger |-> 0, err |-> TRUE]
  ELSE IF best = NoChain THEN [best |-> Block(k), ledger |-> Len(log) + 1, err |-> FALSE]
  ELSE LET w == Weigh(best, Block(k)) IN
       [best |-> w.tip, ledger |-> IF w.err = "" /\ w.tip = Block(k) THEN Len(log) + 1 ELSE ledger, err |-> w.err # ""]
Init == net \in {"legacy", "berkeley"} /\ best = NoChain /\ ledger = 0 /\ log = << >>
Add(k, v) == LET r == Result(k, v) l == IF net = "legacy" THEN 0 ELSE r.ledger IN
             /\ best' = r.best /\ ledger' = l /\ UNCHANGED net
             /\ log' = Append(log, [block |-> Block(k), v |-> v, err |-> r.err, best |-> IF r.best = NoChain THEN 0 ELSE r.best.id, ledger |-> l])
Next == Len(log) < Depth /\ \E k \in Used, v \in 1..2 : Add(k, v)
Spec == Init /\ [][Next]_vars
(* the ledger is that of the best chain's block *)
Matches == (net = "berkeley" /\ best # NoChain) => ledger > 0 /\ log[ledger].block = best
(* once there is a best chain there always is, and it is a block that was added and verified *)
Sound == best # NoChain => \E i \in 1..Len(log) : log[i].block = best /\ ~log[i].err
Keeps == [][best # NoChain => best' # NoChain]_vars
(* the longest of recent forks wins, however long it claims to be *)
Recent == \A i, j \in 1..Len(log) : ShortRange(log[i].block, log[j].block)
Good == { i \in 1..Len(log) : net = "berkeley" \/ log[i].v = 1 }
Heaviest == (Recent /\ Good # {}) => \A i \in Good : ~Longer(log[i].block, best)
Export == Len(log) = Depth => CSVWrite("%1$s", << ToJson([ty |-> net, log |-> log]) >>, IOEnv.OUT)
=============================================================================

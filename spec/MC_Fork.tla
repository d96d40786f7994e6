------------------------------- MODULE MC_Fork -------------------------------
(* Pairs of chains exercising each rule of ForkChoice at its boundaries, and *)
(* lists of candidates; with the properties of selection.                    *)
EXTENDS ForkChoice, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS MaxList, Wide
VARIABLES tip, cands, group, go
vars == << tip, cands, group, go >>
W(x) == [i \in 1..SubWindows |-> x]
Base == [len |-> 5, vrf |-> 2, hash |-> 2, epoch |-> 3, slk |-> 1, nlk |-> 1, slot |-> 22000, spe |-> SlotsPerEpoch, mwd |-> 40, win |-> W(6), id |-> 0]

(* which of two recent chains: every combination of the three ranks *)
GLonger == { [Base EXCEPT !.len = l, !.vrf = v, !.hash = h] : l \in {0, 5, 6, Big + 1, Big + 2}, v \in 1..3, h \in 1..3 }
(* recent or not: epochs, checkpoints, place in the epoch *)
GRange == { [Base EXCEPT !.epoch = e, !.slk = s, !.nlk = n, !.slot = x, !.len = l, !.spe = p] :
              e \in {0, 3, 4, 5}, s \in 1..2, n \in 1..2, x \in {3 * SlotsPerEpoch + 4759, 3 * SlotsPerEpoch + 4760, 3 * SlotsPerEpoch + 4761},
              l \in {5, 6}, p \in {SlotsPerEpoch} }
          \cup { [Base EXCEPT !.epoch = e, !.spe = p, !.slot = x, !.len = l] : e \in {3, 4, Big + 647, Big + 646}, p \in {0, 1, 5000, SlotsPerEpoch}, x \in {4760, 9999}, l \in {5, 6} }
(* long range: far apart checkpoints, densities *)
Far(c) == [c EXCEPT !.slk = 2]
Windows == { W(6), W(7), W(0), [W(6) EXCEPT ![1] = 0], [W(3) EXCEPT ![11] = 7, ![5] = 0], [i \in 1..SubWindows |-> i % 8] }
BadWindows == { [W(6) EXCEPT ![4] = 8], SubSeq(W(6), 1, SubWindows - 1), Append(W(6), 6), << >>, [W(0) EXCEPT ![11] = Big + 5] }
Slots == { 0, 1, 6, 1438, 1439, 1440, 1441, 22000, 22001, 22005, 22010, 22011, 22050 }
GDens == { [Base EXCEPT !.slot = x, !.mwd = m, !.win = w, !.len = l] : x \in (IF Wide THEN Slots ELSE {1, 1439, 1440, 22000, 22005, 22050}), m \in {0, 33, 77}, w \in Windows, l \in {5, 6, 7} }
GBad == { [Base EXCEPT !.win = w, !.slot = x, !.mwd = 77] : w \in BadWindows, x \in {1439, 22000, 22077, Big + 7} }
GBig == { [Base EXCEPT !.win = w, !.slot = x, !.mwd = m] : w \in {W(6), [W(Big + 600) EXCEPT ![3] = 1]}, x \in {Big + 646, Big + 647, Big + 640, 5, 22000}, m \in {50, Big + 647} }

Pool == << Base, [Base EXCEPT !.len = 6], [Base EXCEPT !.vrf = 3], [Base EXCEPT !.hash = 3], Far([Base EXCEPT !.mwd = 60, !.len = 4]),
           Far([Base EXCEPT !.mwd = 20, !.len = 9]), Far([Base EXCEPT !.win[2] = 9, !.mwd = 77]),
           [Base EXCEPT !.epoch = 4, !.slot = 22003, !.len = 7], Far([Base EXCEPT !.epoch = 4, !.slot = 22900, !.mwd = 41]) >>
Tips == [longer |-> GLonger, range |-> GRange, dens |-> GDens, bad |-> GBad \cup {Base}, big |-> GBig \cup {Base}, empty |-> {NoChain, Base},
         list |-> { [Pool[t] EXCEPT !.id = t] : t \in 1..Len(Pool) }]
Cands == CASE group = "longer" -> { << c >> : c \in GLonger }
           [] group = "range" -> { << c >> : c \in GRange }
           [] group = "dens" -> { << Far(c) >> : c \in { d \in GDens : d.len = 6 /\ (Wide \/ d.win # W(0) \/ d.slot \in {1440, 22050}) } }
           [] group = "bad" -> { << Far(c) >> : c \in GBad \cup {Base} }
           [] group = "big" -> { << Far(c) >> : c \in GBig \cup {Base} }
           [] group = "empty" -> { << NoChain >>, << Base >>, << >>, << Base, NoChain >>, << NoChain, Base >> }
           [] OTHER -> UNION { { [i \in 1..n |-> [Pool[f[i]] EXCEPT !.id = f[i]]] : f \in [1..n -> 1..Len(Pool)] } : n \in 2..MaxList }
Init == go = FALSE /\ group \in DOMAIN Tips /\ tip \in Tips[group] /\ cands = << >>
Next == ~go /\ go' = TRUE /\ cands' \in Cands /\ UNCHANGED << tip, group >>
Spec == Init /\ [][Next]_vars

r == Choose_(tip, cands)
Chains == { cands[i] : i \in 1..Len(cands) } \cup { tip }
NoEmpty == \A c \in Chains : ~Empty(c)
(* the answer is one of the chains offered *)
FromInput == r.tip \in Chains
(* whether a fork is recent does not depend on which chain is the tip *)
Symmetric == NoEmpty => \A c, d \in Chains : ShortRange(c, d) <=> ShortRange(d, c)
(* selection between recent chains is a strict total order on what it looks at *)
Total == NoEmpty => \A c, d \in Chains : /\ ~(Longer(c, d) /\ Longer(d, c))
                                         /\ ~Longer(c, d) /\ ~Longer(d, c) => c.len = d.len /\ c.vrf = d.vrf /\ c.hash = d.hash
(* among mutually recent chains the best one wins, whatever the order *)
OrderFree == (NoEmpty /\ \A c, d \in Chains : ShortRange(c, d)) => r.err = "" /\ \A c \in Chains : ~Longer(c, r.tip)
(* an ill formed long range candidate never becomes the tip *)
NoForgery == (NoEmpty /\ r.err = "" /\ r.tip # tip) => \/ WellFormed(r.tip) \/ \E c \in Chains \ {r.tip} : ShortRange(c, r.tip)
(* selecting again changes nothing for a single candidate *)
Stable == (NoEmpty /\ Len(cands) = 1 /\ r.err = "") => Choose_(r.tip, cands).tip = r.tip
R(c) == IF Empty(c) THEN [empty |-> TRUE] ELSE c
Case == [group |-> group, tip |-> R(tip), cands |-> [i \in 1..Len(cands) |-> R(cands[i])], want |-> R(r.tip), err |-> r.err,
         short |-> IF NoEmpty /\ Len(cands) = 1 THEN << ShortRange(tip, cands[1]) >> ELSE << >>,
         dens |-> IF NoEmpty /\ Len(cands) = 1 THEN [i \in 1..2 |-> LET a == IF i = 1 THEN tip ELSE cands[1] b == IF i = 1 THEN cands[1] ELSE tip IN
                                                     IF Missing(a, b) THEN -1 ELSE Density(a, b)] ELSE << >>]
Export == go => CSVWrite("%1$s", << ToJson(Case) >>, IOEnv.OUT)
=============================================================================

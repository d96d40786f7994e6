------------------------------ MODULE MC_Chain ------------------------------
(* Growing a chain block by block, and what a chain tells about itself.      *)
EXTENDS ForkChoice, TLC, Json, CSV, IOUtils
CONSTANTS MaxPush, MaxLong
VARIABLES chain, log
vars == << chain, log >>
Last == Big + 647                      \* u32::MAX
Heights == {0, 1, 2, 3, Last - 1, Last}
GSlots == { << 0, 7140 >>, << 7141, 7140 >>, << 5, 0 >>, << Last, 1000 >>, << 999, Last >> }
Blocks == [len : Heights, at : GSlots]
Follows(h, t) == h > 0 /\ h - 1 = t
Accepts(c, b) == c = << >> \/ Follows(b.len, c[Len(c)].len)
Top(c) == c[Len(c)]
(* number of slots into the epoch; -1 when there is no answer *)
Slot(s) == IF s[2] = 0 THEN -1 ELSE IF s[2] >= Big THEN (IF s[1] < s[2] THEN s[1] ELSE s[1] - s[2]) ELSE RealMod(s[1], s[2])
View(c) == IF c = << >> THEN [n |-> 0, length |-> 0, top |-> -1, genesis |-> -1, slot |-> -1]
           ELSE [n |-> Len(c), length |-> Top(c).len, top |-> Top(c).k, genesis |-> c[1].k, slot |-> Slot(Top(c).at)]
Init == chain = << >> /\ log = << >>
Push(b) == LET c == [len |-> b.len, at |-> b.at, k |-> Len(log)] n == IF Accepts(chain, b) THEN Append(chain, c) ELSE chain IN
           /\ chain' = n
           /\ log' = Append(log, [len |-> b.len, at |-> b.at, ok |-> Accepts(chain, b), view |-> View(n)])
Short == Len(log) < MaxPush /\ \E b \in Blocks : (Len(log) < 2 \/ b.at \in {<< 7141, 7140 >>, << Last, 1000 >>}) /\ Push(b)
(* a chain that has grown without a refusal is pushed further: next to each of its blocks, or to none *)
Long == /\ Len(log) >= MaxPush /\ Len(log) < MaxLong /\ Len(chain) >= MaxPush
        /\ \E l \in {0} \union {chain[i].len + d : i \in 1..Len(chain), d \in {0, 1}} : Push([len |-> l, at |-> << 7141, 7140 >>])
Next == Short \/ Long
Spec == Init /\ [][Next]_vars
Consecutive == \A i \in 1..Len(chain) - 1 : Follows(chain[i + 1].len, chain[i].len)
KeepsGenesis == [][chain # << >> => chain'[1] = chain[1]]_vars
Export == Len(log) \in {MaxPush, MaxLong} => CSVWrite("%1$s", << ToJson([log |-> log]) >>, IOEnv.OUT)
=============================================================================

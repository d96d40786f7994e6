------------------------------ MODULE MC_Signed ------------------------------
(* Signed commands: made, possibly tampered with on the way, and verified,   *)
(* alone or in blocks; transfers from the builder; memos.                    *)
EXTENDS SignedCommand, TLC, Json, CSV, IOUtils
CONSTANT Rich
VARIABLES st
P0 == [kind |-> "pay", fee |-> << 1, 2, 3, 4, 5, 6, 7, 8 >>, feeToken |-> Low(1, 8), token |-> << 9, 10, 11, 12, 13, 14, 15, 16 >>,
       amount |-> << 0, 0, 0, 0, 0, 0, 0, 128 >>, nonce |-> << 17, 18, 19, 20 >>, valid |-> << 255, 255, 255, 127 >>,
       payer |-> [x |-> 7, odd |-> TRUE], source |-> [x |-> -1, odd |-> FALSE], receiver |-> [x |-> 1000003, odd |-> TRUE],
       memo |-> Memo(<< 104, 105 >>)]
U64s == IF Rich THEN { Low(0, 8), Low(1, 8), Max(8), << 128, 0, 0, 0, 0, 0, 0, 0 >>, << 0, 0, 0, 0, 1, 0, 0, 0 >>, << 0, 0, 0, 0, 0, 0, 0, 128 >>, << 1, 2, 3, 4, 5, 6, 7, 8 >> }
        ELSE { Low(0, 8), Max(8), << 1, 2, 3, 4, 5, 6, 7, 128 >> }
U32s == IF Rich THEN { Low(0, 4), Max(4), << 0, 0, 0, 128 >>, << 1, 2, 3, 4 >>, << 0, 1, 0, 0 >> } ELSE { Low(0, 4), Max(4), << 1, 2, 3, 132 >> }
Points == { [x |-> x, odd |-> o] : x \in (IF Rich THEN {0, 1, 5, 77777, -1, -2} ELSE {0, 77777, -1}), o \in BOOLEAN }
Memos == { << >>, << 1 >>, Memo(<< >>), Memo([i \in 1..32 |-> 96 + (i % 26)]), Memo(<< 104, 105, 33 >>), << 0 >> \o [i \in 1..33 |-> i], [i \in 1..40 |-> 255 - i] }
Values(f) == CASE f \in {"fee", "feeToken", "token", "amount"} -> U64s
               [] f \in {"nonce", "valid"} -> U32s
               [] f \in {"payer", "source", "receiver"} -> Points
               [] f = "memo" -> Memos
               [] f = "kind" -> {"pay", "del"}
Names == {"fee", "feeToken", "token", "amount", "nonce", "valid", "payer", "source", "receiver", "memo", "kind"}
Vary(p) == UNION { { [p EXCEPT ![f] = v] : v \in Values(f) } : f \in Names }
Bases == LET a == {P0, [P0 EXCEPT !.kind = "del"], [P0 EXCEPT !.kind = "del", !.token = Low(1, 8), !.amount = Low(0, 8)]} IN
         IF Rich THEN a \cup Vary(P0) ELSE a
Nets == {"mainnet", "testnet"}
(* a delegation has no token and no amount that could change *)
Norm(p) == IF p.kind = "pay" THEN p ELSE [p EXCEPT !.token = Low(1, 8), !.amount = Low(0, 8)]
(* o: what was signed, by which key, for which network *)
Tampered(c, o) == { [c |-> [c EXCEPT !.payload = q], o |-> o] : q \in Vary(c.payload) }
                   \cup { [c |-> [c EXCEPT !.key = k], o |-> o] : k \in {0, 3} }
                   \cup { [c |-> d, o |-> o] : d \in {[c EXCEPT !.odd = TRUE], [c EXCEPT !.s = FALSE]} }
                   \cup { [c |-> [c EXCEPT !.sig = Sig(n.net, n.key, FALSE, n.payload)], o |-> n] :
                          n \in {[o EXCEPT !.key = 2], [o EXCEPT !.payload.fee = Low(1, 8)]} }
(* commands of blocks: valid or broken in one way, the block is for mainnet *)
Kinds == {"ok", "del", "amount", "net", "offcurve", "key"}
Cmd(k) == LET p == IF k = "del" THEN [P0 EXCEPT !.kind = "del"] ELSE P0
              c == Sign(IF k = "net" THEN "testnet" ELSE "mainnet", 1, p) IN
          CASE k = "amount" -> [c EXCEPT !.payload.amount = Max(8)]
            [] k = "offcurve" -> [c EXCEPT !.key = 0]
            [] k = "key" -> [c EXCEPT !.key = 3]
            [] OTHER -> c
Lists == { << >> } \cup { << k >> : k \in Kinds } \cup { << j, k >> : j \in Kinds, k \in Kinds }
          \cup (IF Rich THEN { << i, j, k >> : i \in Kinds, j \in {"ok", "net"}, k \in Kinds } ELSE { <<"ok", "del", "amount">>, <<"ok", "ok", "del">> })
Cmds(l) == [i \in 1..Len(l) |-> Cmd(l[i])]
Options == [token |-> << 2, 0, 0, 0, 9, 0, 0, 0 >>, feeToken |-> << 3, 0, 0, 0, 0, 0, 0, 8 >>, payer |-> [x |-> 12, odd |-> TRUE],
            memo |-> Memo(<< 97 >>), valid |-> << 9, 8, 7, 6 >>]
Texts == { [i \in 1..n |-> 32 + ((i * 7) % 90)] : n \in 0..34 }
BadMemos == Memos \cup { SubSeq(Memo([i \in 1..32 |-> 65 + (i % 26)]), 1, n) : n \in 0..34 } \cup { << 1, n >> \o [i \in 1..m |-> 66] : n \in {0, 1, 31, 32, 33, 255}, m \in {0, 1, 30, 32, 33, 254, 255, 256} }
Init == st = [n |-> "start"]
Next == /\ st.n = "start"
        /\ \/ \E p \in Bases, net \in Nets : st' = [n |-> "signed", net |-> net, c |-> Sign(net, 1, p), o |-> [net |-> net, key |-> 1, payload |-> p]]
           \/ \E l \in Lists, m \in Lists \cup { << "none" >> } : Len(l) + Len(m) <= (IF Rich THEN 4 ELSE 3) /\ st' = [n |-> "block", two |-> l, one |-> m]
           \/ \E s \in SUBSET DOMAIN Options : st' = [n |-> "built", opts |-> s]
           \/ \E t \in Texts : st' = [n |-> "memo", text |-> t]
           \/ \E m \in BadMemos : st' = [n |-> "text", memo |-> m]
Tamper == /\ st.n = "signed" /\ \E t \in Tampered(st.c, st.o) : st' = [st EXCEPT !.c = t.c, !.o = t.o, !.n = "tampered"]
Spec == Init /\ [][Next \/ Tamper]_st
One(m) == IF m = << "none" >> THEN << >> ELSE m
(* a command verifies exactly if it is the one that was signed, on the network it was signed for *)
Binding == st.n \in {"signed", "tampered"} =>
             \A net \in Nets : Verify(net, st.c) <=>
               /\ net = st.net \/ st.c.sig.dom = Domain(net)
               /\ st.c.key = 1 /\ ~st.c.odd /\ st.c.s /\ st.c.sig = Sig(net, 1, FALSE, st.c.payload)
Untampered == st.n = "signed" => \A net \in Nets : Verify(net, st.c) <=> net = st.net
(* no two payloads that differ are signed as the same message *)
Injective == st.n = "signed" => \A q \in Vary(st.c.payload) : Input(q) = Input(st.c.payload) => Norm(q) = Norm(st.c.payload)
MemoRound == st.n = "memo" /\ Len(st.text) <= 32 => MemoText(Memo(st.text)) = st.text /\ Len(Memo(st.text)) = 34
Case == CASE st.n \in {"signed", "tampered"} ->
               [kind |-> "signed", signed |-> st.o, payload |-> st.c.payload, key |-> st.c.key, odd |-> st.c.odd, s |-> st.c.s,
                want |-> Input(st.c.payload),
                domains |-> [n \in Nets |-> Domain(n)], verify |-> [n \in Nets |-> Verify(n, st.c)]]
          [] st.n = "block" -> [kind |-> "block", two |-> st.two, one |-> st.one, cmds |-> [k \in Kinds |-> LET c == Cmd(k) IN [payload |-> c.payload, key |-> c.key, odd |-> c.odd, s |-> c.s]],
                                verify |-> VerifyBlock("mainnet", Cmds(st.two), Cmds(One(st.one)))]
          [] st.n = "built" -> [kind |-> "built", opts |-> [k \in st.opts |-> Options[k]], base |-> P0,
                                want |-> Transfer(P0.source, P0.receiver, P0.amount, P0.fee, P0.nonce, [k \in st.opts |-> Options[k]])]
          [] st.n = "memo" -> [kind |-> "memo", text |-> st.text, want |-> IF Len(st.text) > 32 THEN << >> ELSE Memo(st.text)]
          [] st.n = "text" -> [kind |-> "text", memo |-> st.memo, want |-> MemoText(st.memo)]
          [] OTHER -> [kind |-> "none"]
Export == st.n # "start" => CSVWrite("%1$s", << ToJson(Case) >>, IOEnv.OUT)
=============================================================================

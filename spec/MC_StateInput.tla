---------------------------- MODULE MC_StateInput ----------------------------
(* Protocol states and accounts which differ from one another in one field   *)
(* or many, and what is hashed of them.                                      *)
EXTENDS StateInput, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxDev, Sampled
VARIABLES net, s, dev
vars == << net, s, dev >>
N4(n) == Low(n, 4)
N8(n) == << n % 256, n \div 256, 7, 0, 0, 0, n % 100, 1 >>
K(n) == [x |-> n, odd |-> n % 2 = 0]
Ep(n) == [seed |-> n, start |-> n + 1, length |-> N4(n + 2), hash |-> n + 3, total |-> N8(n + 4), lock |-> n + 5]
Blob(n) == [i \in 1..32 |-> (n * 37 + i * i) % 256]
BaseState ==
  [ constants |-> [k |-> N4(290), delta |-> N4(3), spe |-> N4(7140), spsw |-> N4(7), genesis_ts |-> N8(4000)],
    genesis_state |-> 11, previous |-> 12, staged |-> 13, aux |-> Blob(1), pc_aux |-> Blob(2), pc_hash |-> 14, snarked |-> 15, genesis |-> 16,
    token |-> N8(500), date |-> N8(600), body |-> Blob(3),
    local |-> [stack_frame |-> 21, call_stack |-> 22, commitment |-> 23, full_commitment |-> 24, token |-> N8(700), excess |-> N8(800), positive |-> TRUE,
               ledger |-> 25, party |-> N4(26), success |-> FALSE],
    height |-> N4(70000), epoch_count |-> N4(31), mwd |-> N4(77), windows |-> [i \in 1..11 |-> N4(i + 300)], vrf |-> Blob(4), total |-> N8(900),
    slot |-> N4(1000), slot_spe |-> N4(7141), since_genesis |-> N4(1100), ancestor |-> TRUE, supercharge |-> FALSE,
    staking |-> Ep(40), next |-> Ep(50), winner |-> K(61), creator |-> K(62), receiver |-> K(63) ]
Auths == << "None", "Either", "Proof", "Signature", "Both", "Impossible" >>
BaseAccount ==
  [ auth |-> [i \in 1..11 |-> Auths[1 + (i % 6)]], timing |-> [timed |-> TRUE, minimum |-> N8(100), cliff |-> N4(101), cliff_amount |-> N8(102), period |-> N4(103), increment |-> N8(104)],
    voting |-> 111, delegated |-> TRUE, delegate |-> K(112), receipt |-> 113, nonce |-> N4(114), balance |-> N8(115), symbol |-> << 1, 2, 3, 4, 5, 200 >>,
    owner |-> TRUE, disabled |-> FALSE, token |-> N8(116), key |-> K(117) ]
Nums4 == {N4(0), N4(1), Max(4), << 0, 0, 0, 128 >>, N4(123456)}
Nums8 == {Low(0, 8), Low(1, 8), Max(8), << 0, 0, 0, 0, 0, 0, 0, 128 >>, N8(333)}
Elems == {0, 1, -1, -2, 99}
Blobs == {[i \in 1..32 |-> 0], Max(32), Blob(9), [Blob(1) EXCEPT ![1] = 0], [Blob(2) EXCEPT ![32] = 1]}
Ks == {K(0), [x |-> 61, odd |-> TRUE], [x |-> 62, odd |-> FALSE], [x |-> -1, odd |-> TRUE]}
Alt4 == {"height", "epoch_count", "mwd", "slot", "slot_spe", "since_genesis"}
Alt8 == {"token", "date", "total"}
AltF == {"genesis_state", "previous", "staged", "pc_hash", "snarked", "genesis"}
Vrfs == {Blob(5), Max(32), [i \in 1..32 |-> 0], [Blob(4) EXCEPT ![32] = (Blob(4)[32] % 16) + 16 * ((Blob(4)[32] \div 16 + 1) % 16)], SubSeq(Blob(4), 1, 31), << >>, Blob(4) \o << 9, 9 >>}
Windows == {[i \in 1..11 |-> N4(0)], << >>, [i \in 1..10 |-> N4(i + 300)], [i \in 1..12 |-> N4(i + 300)], [i \in 1..11 |-> N4(312 - i)], [i \in 1..11 |-> Max(4)]}
SubEpoch(e) == UNION { {[e EXCEPT ![f] = v] : v \in Elems} : f \in {"seed", "start", "hash", "lock"} } \cup {[e EXCEPT !.length = v] : v \in Nums4} \cup {[e EXCEPT !.total = v] : v \in Nums8}
SubConst(c) == UNION { {[c EXCEPT ![f] = v] : v \in Nums4} : f \in {"k", "delta", "spe", "spsw"} } \cup {[c EXCEPT !.genesis_ts = v] : v \in Nums8}
SubLocal(l) == UNION { {[l EXCEPT ![f] = v] : v \in Elems} : f \in {"stack_frame", "call_stack", "commitment", "full_commitment", "ledger"} }
  \cup UNION { {[l EXCEPT ![f] = v] : v \in Nums8} : f \in {"token", "excess"} } \cup {[l EXCEPT !.party = v] : v \in Nums4}
  \cup {[l EXCEPT !.positive = ~l.positive], [l EXCEPT !.success = ~l.success]}
Common(x) == UNION { {[x EXCEPT ![f] = v] : v \in Nums4} : f \in Alt4 } \cup UNION { {[x EXCEPT ![f] = v] : v \in Nums8} : f \in Alt8 }
  \cup UNION { {[x EXCEPT ![f] = v] : v \in Elems} : f \in AltF } \cup UNION { {[x EXCEPT ![f] = v] : v \in Blobs} : f \in {"aux", "pc_aux", "body"} }
  \cup UNION { {[x EXCEPT ![f] = v] : v \in Ks} : f \in {"winner", "creator", "receiver"} } \cup {[x EXCEPT !.vrf = v] : v \in Vrfs} \cup {[x EXCEPT !.windows = v] : v \in Windows}
  \cup {[x EXCEPT !.ancestor = ~x.ancestor], [x EXCEPT !.supercharge = ~x.supercharge]}
  \cup {[x EXCEPT !.staking = e] : e \in SubEpoch(x.staking)} \cup {[x EXCEPT !.next = e] : e \in SubEpoch(x.next)} \cup {[x EXCEPT !.constants = c] : c \in SubConst(x.constants)}
  \cup {[x EXCEPT !.local = l] : l \in SubLocal(x.local)}
SubTiming(t) == UNION { {[t EXCEPT ![f] = v] : v \in Nums8} : f \in {"minimum", "cliff_amount", "increment"} } \cup UNION { {[t EXCEPT ![f] = v] : v \in Nums4} : f \in {"cliff", "period"} }
  \cup {[t EXCEPT !.timed = ~t.timed]}
AccountAlts(a) == {[a EXCEPT !.auth[i] = Auths[j]] : i \in 1..11, j \in 1..6} \cup {[a EXCEPT !.timing = t] : t \in SubTiming(a.timing)}
  \cup UNION { {[a EXCEPT ![f] = v] : v \in Elems} : f \in {"voting", "receipt"} } \cup {[a EXCEPT !.nonce = v] : v \in Nums4}
  \cup UNION { {[a EXCEPT ![f] = v] : v \in Nums8} : f \in {"balance", "token"} } \cup UNION { {[a EXCEPT ![f] = v] : v \in Ks} : f \in {"delegate", "key"} }
  \cup {[a EXCEPT ![f] = ~a[f]] : f \in {"owner", "disabled", "delegated"}} \cup {[a EXCEPT !.symbol = v] : v \in {Max(6), Low(0, 6), << 0, 0, 0, 0, 0, 1 >>}}
Base(n) == IF n = "account" THEN BaseAccount ELSE BaseState
Alts == IF net = "account" THEN AccountAlts(s) ELSE Common(s)
Items(n, x) == IF n = "account" THEN Account(x) ELSE Body(n, x)
Init == net \in {"legacy", "berkeley", "account"} /\ s = Base(net) /\ dev = 0
Next == dev < MaxDev /\ dev' = dev + 1 /\ UNCHANGED net /\ s' \in IF Sampled THEN {RandomElement(Alts \ {s})} ELSE Alts \ {s}
Spec == Init /\ [][Next]_vars
(* ---- what must be committed to: everything, except                        *)
Seen(n, x) == IF n = "account" THEN [x EXCEPT !.auth = [i \in 1..11 |-> AuthBits(x.auth[i])], !.timing = IF x.timing.timed THEN x.timing ELSE [timed |-> FALSE],
                                              !.delegate = IF x.delegated THEN x.delegate ELSE K(0)]
              ELSE LET v == [x EXCEPT !.vrf = Bits(Vrf(x.vrf)), !.previous = 0] IN
                   IF n = "legacy" THEN [v EXCEPT !.local = 0, !.body = 0] ELSE [v EXCEPT !.token = 0]
WellFormed(x) == net = "account" \/ (Len(x.windows) = 11 /\ Len(x.vrf) = 32)
Committed == (dev = 1 /\ WellFormed(s) /\ Seen(net, s) # Seen(net, Base(net))) =>
             \/ Input(net, Items(net, s)) # Input(net, Items(net, Base(net)))
             \/ net # "account" /\ << s.staged, s.aux, s.pc_aux >> # << BaseState.staged, BaseState.aux, BaseState.pc_aux >>
Export == CSVWrite("%1$s", << ToJson([net |-> net, s |-> s, input |-> Input(IF net = "legacy" THEN "legacy" ELSE "chunked", Items(net, s))]) >>, IOEnv.OUT)
=============================================================================

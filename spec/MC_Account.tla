----------------------------- MODULE MC_Account -----------------------------
(* Accounts which differ from a plain one in up to MaxDev fields, and their  *)
(* documents: whole, cut short, with something behind or with a byte that    *)
(* means nothing.                                                            *)
EXTENDS Account, TLC, Json, CSV, IOUtils
CONSTANTS MaxDev
VARIABLES fmt, a, dev, harm
vars == << fmt, a, dev, harm >>
B32(n) == [i \in 1..32 |-> IF i = 32 THEN n % 64 ELSE (n * 37 + i * i) % 256]
PMinus1 == << 0, 0, 0, 0, 237, 48, 45, 153, 27, 249, 76, 9, 252, 152, 70, 34 >> \o [i \in 1..15 |-> 0] \o << 64 >>
Keys == { [x |-> B32(1), odd |-> TRUE], [x |-> [i \in 1..32 |-> 0], odd |-> FALSE], [x |-> PMinus1, odd |-> FALSE] }
Hashes == { B32(2), [i \in 1..32 |-> 0], [i \in 1..32 |-> 255] }
(* around the boundaries of the markers, and of 32 and 63 bits *)
N(l) == [i \in 1..8 |-> IF i <= Len(l) THEN l[i] ELSE 0]
Small == { N(<< >>), N(<< 1 >>), N(<< 127 >>), N(<< 128 >>), N(<< 255 >>), N(<< 255, 127 >>), N(<< 0, 128 >>), N(<< 255, 255 >>), N(<< 255, 255, 255, 127 >>), N(<< 0, 0, 0, 128 >>),
           N(<< 255, 255, 255, 255 >>) }
Wide == Small \cup { N(<< 0, 0, 0, 0, 1 >>), [i \in 1..8 |-> IF i = 8 THEN 127 ELSE 255], << 1, 2, 3, 4, 5, 6, 7, 8 >> }
Base(n) ==
  [ key |-> [x |-> B32(n), odd |-> n % 2 = 0], token |-> N(<< n >>), perm |-> [owner |-> n = 4, flag |-> n # 4], symbol |-> B32(n + 1), balance |-> << 1, 2, 3, 4, 5, 6, 7, n >>,
    nonce |-> N(<< n, 200 >>), receipt |-> B32(n + 2), delegated |-> n = 4, delegate |-> [x |-> B32(n + 3), odd |-> TRUE], voting |-> B32(n + 4),
    timing |-> [timed |-> n = 4, minimum |-> N(<< 1, n, 1 >>), cliff |-> N(<< 2, n >>), cliff_amount |-> N(<< 3, n, 3 >>), period |-> N(<< 4, n >>), increment |-> N(<< 5, n, 5 >>)],
    stake |-> n = 4, auth |-> [i \in 1..11 |-> Auths[((i * n) % 6) + 1]], apps |-> << n # 4, n = 4 >> ]
Alts == UNION { {[a EXCEPT ![f] = v] : v \in Keys} : f \in {"key", "delegate"} } \cup UNION { {[a EXCEPT ![f] = v] : v \in Hashes} : f \in {"receipt", "voting", "symbol"} }
  \cup UNION { {[a EXCEPT ![f] = v] : v \in Wide} : f \in {"token", "balance"} } \cup {[a EXCEPT !.nonce = v] : v \in Small}
  \cup {[a EXCEPT !.perm = [owner |-> o, flag |-> g]] : o, g \in BOOLEAN} \cup {[a EXCEPT !.delegated = ~a.delegated], [a EXCEPT !.stake = ~a.stake]}
  \cup UNION { {[a EXCEPT !.timing[f] = v] : v \in Wide} : f \in {"minimum", "cliff", "cliff_amount", "period", "increment"} } \cup {[a EXCEPT !.timing.timed = ~a.timing.timed]}
  \cup {[a EXCEPT !.auth[i] = Auths[j]] : i \in 1..11, j \in 1..6} \cup {[a EXCEPT !.apps[i] = ~a.apps[i]] : i \in 1..2}
None == [t |-> "none", i |-> 0, v |-> 0]
Init == fmt \in {"legacy", "berkeley"} /\ dev = 0 /\ harm = None /\ \E n \in {3, 4, 7} : a = Base(n)
Vary == dev < MaxDev /\ harm = None /\ dev' = dev + 1 /\ a' \in Alts \ {a} /\ UNCHANGED << fmt, harm >>
Whole == BytesOf(Parts(fmt, a))
Spoil == /\ dev = 0 /\ harm = None /\ UNCHANGED << fmt, a, dev >>
         /\ LET ps == Parts(fmt, a) IN
            \/ \E i \in 0..Len(Whole) - 1 : harm' = [t |-> "cut", i |-> i, v |-> 0]
            \/ \E v \in {0, 1, 255} : harm' = [t |-> "behind", i |-> 0, v |-> v]
            \/ \E i \in 1..Len(ps) : \E v \in (IF ps[i].k = "tag" THEN {ps[i].n, ps[i].n + 1, 128, 255} ELSE IF ps[i].k = "int" THEN {128, 251} ELSE {}) : harm' = [t |-> "byte", i |-> i, v |-> v]
Next == Vary \/ Spoil
Spec == Init /\ [][Next]_vars
Spoilt == CASE harm.t = "none" -> Whole
            [] harm.t = "cut" -> SubSeq(Whole, 1, harm.i)
            [] harm.t = "behind" -> Append(Whole, harm.v)
            [] harm.t = "byte" -> BytesOf([Parts(fmt, a) EXCEPT ![harm.i].b = << harm.v >> \o Tail(@)])
(* what is read of a document that is whole *)
SeenOf(x) == [f \in (DOMAIN x \ (IF fmt = "legacy" THEN {"symbol"} ELSE {"stake"})) |->
           IF f = "delegate" THEN (IF x.delegated THEN x.delegate ELSE [x |-> << >>, odd |-> FALSE])
           ELSE IF f = "timing" THEN (IF x.timing.timed THEN x.timing ELSE [timed |-> FALSE])
           ELSE IF f = "auth" THEN (IF fmt = "legacy" THEN SubSeq(x.auth, 1, 6) ELSE x.auth)
           ELSE IF f = "apps" THEN (IF fmt = "legacy" THEN << x.apps[1] >> ELSE x.apps) ELSE x[f]]
(* different accounts have different documents *)
Faithful == harm = None => \A n \in {3, 4, 7} : (SeenOf(Base(n)) = SeenOf(a)) = (BytesOf(Parts(fmt, Base(n))) = Whole)
Export == CSVWrite("%1$s", << ToJson([fmt |-> fmt, harm |-> harm, bytes |-> Spoilt, a |-> SeenOf(a)]) >>, IOEnv.OUT)
=============================================================================

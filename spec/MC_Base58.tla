------------------------------ MODULE MC_Base58 ------------------------------
(* Base58check texts: a version byte that names the kind, a payload and a    *)
(* checksum.  Every kind is read against texts of every kind, well formed or *)
(* spoilt in one place or two.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxSpoil
VARIABLES kind, form, size, spoil, dev
vars == << kind, form, size, spoil, dev >>
Kinds == {"state", "statebody", "ledger", "chain", "coinbase", "seed", "vrfhash", "stackdata", "stackhash", "aux", "pcaux", "memo", "vrf",
          "signature", "key"}
Version == [ledger |-> 5, chain |-> 5, coinbase |-> 12, seed |-> 13, aux |-> 14, pcaux |-> 15, state |-> 16, statebody |-> 17, memo |-> 20,
            vrfhash |-> 21, vrf |-> 21, stackdata |-> 23, stackhash |-> 24, signature |-> 154, key |-> 203]
Others == {0, 1, 4, 6, 18, 22, 25, 90, 202, 255}
(* what is between version and checksum: how many bytes come first that describe the rest, and the rest *)
Heading(k) == CASE k \in {"aux", "pcaux", "memo"} -> 0 [] k = "key" -> 2 [] OTHER -> 1
Rest(k) == CASE k = "signature" -> 64 [] k = "key" -> 33 [] OTHER -> 32
AnySize(k) == k \in {"aux", "pcaux", "memo", "vrf"}
Sizes(k) == {0, 1, 31, 32, 33, 34, 63, 64, 65} \cup (IF AnySize(k) THEN {2, 5, 100, 255} ELSE {})
(* places at which a text is spoilt *)
Spoils == {"checksum", "zero", "alphabet", "space", "dropped", "swapped", "appended", "leading"}
(* form: the version byte of the text, as the kind it is of or a number, and whether the heading bytes are those of the kind read *)
Forms == [of : Kinds, n : {0}] \cup [of : {"none"}, n : Others]
VersionOf(f) == IF f.of = "none" THEN f.n ELSE Version[f.of]
TypeOK == kind \in Kinds /\ form \in Forms /\ size \in Sizes(kind) /\ spoil \subseteq Spoils /\ Cardinality(spoil) <= MaxSpoil
Whole(k, n) == AnySize(k) \/ n = Rest(k)
Accepts == spoil = {} /\ VersionOf(form) = Version[kind] /\ Whole(kind, size)
Own(k) == [of |-> k, n |-> 0]
Init == kind \in Kinds /\ form = Own(kind) /\ size = Rest(kind) /\ spoil = {} /\ dev = 0
(* depart from a well formed text step by step *)
Next == /\ dev < MaxSpoil /\ dev' = dev + 1 /\ kind' = kind
        /\ \/ form = Own(kind) /\ form' \in Forms \ {form} /\ UNCHANGED << size, spoil >>
           \/ size = Rest(kind) /\ size' \in Sizes(kind) \ {size} /\ UNCHANGED << form, spoil >>
           \/ \E s \in Spoils \ spoil : spoil' = spoil \cup {s} /\ UNCHANGED << form, size >>
Spec == Init /\ [][Next]_vars
(* no text is read as two kinds, but for the two pairs which share a version byte *)
Shared == { {"ledger", "chain"}, {"vrfhash", "vrf"} }
Apart == \A k, l \in Kinds : k # l /\ {k, l} \notin Shared => Version[k] # Version[l]
Inv == TypeOK /\ Apart
Export == CSVWrite("%1$s", << ToJson([kind |-> kind, version |-> VersionOf(form), own |-> Version[kind], head |-> Heading(kind), size |-> size,
                                      spoil |-> spoil, ok |-> Accepts]) >>, IOEnv.OUT)
=============================================================================

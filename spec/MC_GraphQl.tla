----------------------------- MODULE MC_GraphQl -----------------------------
(* Documents of the GraphQL API and the state read from them.  A document    *)
(* gives every leaf a class; the state takes every field from its own leaf.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxDev, Modes
VARIABLES mode, doc, dev, cut
vars == << mode, doc, dev, cut >>
L(p, d, k) == [p |-> p, d |-> d, k |-> k]
Epoch(p, d) == << L(p \o "/ledger/hash", d \o ".ledger.hash", "ledger"), L(p \o "/ledger/totalCurrency", d \o ".ledger.total", "u64"),
                  L(p \o "/seed", d \o ".seed", "seed"), L(p \o "/startCheckpoint", d \o ".start", "state"),
                  L(p \o "/lockCheckpoint", d \o ".lock", "state"), L(p \o "/epochLength", d \o ".length", "u32") >>
CS == "consensusState/"
BS == "blockchainState/"
StateLeaves ==
  << L("previousStateHash", "previous", "state"),
     L(CS \o "blockHeight", "height", "u32"), L(CS \o "epochCount", "epoch_count", "u32"), L(CS \o "minWindowDensity", "mwd", "u32"),
     L(CS \o "lastVrfOutput", "vrf", "vrf"), L(CS \o "totalCurrency", "total", "u64"), L(CS \o "slot", "slot", "u32"),
     L(CS \o "slotSinceGenesis", "since_genesis", "u32"), L(CS \o "hasAncestorInSameCheckpointWindow", "ancestor", "bool"),
     L(CS \o "blockStakeWinner", "winner", "addr"), L(CS \o "blockCreator", "creator", "addr"), L(CS \o "coinbaseReceiever", "receiver", "addr"),
     L(CS \o "superchargedCoinbase", "supercharge", "bool"),
     L(BS \o "stagedLedgerHash", "staged", "ledger"), L(BS \o "stagedLedgerAuxHash", "aux", "aux"),
     L(BS \o "stagedLedgerPendingCoinbaseAux", "pc_aux", "pcaux"), L(BS \o "stagedLedgerPendingCoinbaseHash", "pc_hash", "coinbase"),
     L(BS \o "genesisLedgerHash", "genesis", "ledger"), L(BS \o "snarkedLedgerHash", "snarked", "ledger"),
     L(BS \o "utcDate", "date", "u64"), L(BS \o "bodyReference", "body", "hex") >>
  \o Epoch(CS \o "stakingEpochData", "staking") \o Epoch(CS \o "nextEpochData", "next")
Auths == << "editState", "send", "receive", "setDelegate", "setPermissions", "setVerificationKey", "setZkappUri", "editSequenceState",
            "setTokenSymbol", "incrementNonce", "setVotingFor" >>
Times == << "initialMinimumBalance", "cliffTime", "cliffAmount", "vestingPeriod", "vestingIncrement" >>
AccountLeaves ==
  << L("publicKey", "key", "addr"), L("token", "token", "u64"), L("balance/total", "balance", "u64"), L("isDisabled", "disabled", "bool"),
     L("isTokenOwner", "owner", "bool"), L("nonce", "nonce", "u32"), L("receiptChainHash", "receipt", "chain"), L("votingFor", "voting", "state"),
     L("delegate", "delegate", "optaddr") >>
  \o [i \in 1..Len(Auths) |-> L("permissions/" \o Auths[i], "auth." \o Auths[i], "auth")]
  \o [i \in 1..Len(Times) |-> L("timing/" \o Times[i], "timing." \o Times[i], "time")]
Leaves(m) == IF m = "state" THEN StateLeaves ELSE AccountLeaves
(* what may stand at a leaf; every "good" leaf of a document holds a value of its own *)
Good == {"good", "other", "zero", "max"}
Lost == {"absent", "null"}
Bad(k) == CASE k \in {"u32", "u64", "time"} -> {"over", "negative", "fraction", "empty", "text", "number", "object"}
            [] k \in {"state", "ledger", "seed", "coinbase", "chain"} -> {"otherversion", "checksum", "short", "long", "empty", "text", "number", "object"}
            [] k = "vrf" -> {"otherversion", "checksum", "short", "inner", "empty", "text", "number", "object"}
            [] k \in {"aux", "pcaux"} -> {"otherversion", "checksum", "empty", "text", "number", "object"}
            [] k \in {"addr", "optaddr"} -> {"otherversion", "checksum", "short", "empty", "text"}
            [] k = "hex" -> {"short", "long", "empty", "text", "number", "object"}
            [] k = "auth" -> {"empty", "text", "case", "number", "object"}
            [] k = "bool" -> {}
Classes(k) == Good \cup Lost \cup Bad(k)
(* inner objects which may be missing or of another kind as a whole *)
Inner(m) == IF m = "state" THEN {"consensusState", "blockchainState", "consensusState/stakingEpochData", "consensusState/nextEpochData/ledger", ""}
            ELSE {"permissions", "timing", "balance", ""}
Under(p, n) == n = "" \/ (Len(p) > Len(n) /\ SubSeq(p, 1, Len(n) + 1) = n \o "/")
(* ---- the reading *)
N(m) == 1..Len(Leaves(m))
At(m, c, i) == IF c.n # "none" /\ Under(Leaves(m)[i].p, c.n) THEN "absent" ELSE doc[i]
Fine(k, c) == CASE c \in Good -> TRUE
                [] k \in {"bool", "optaddr", "time"} -> c \in Lost
                [] OTHER -> FALSE
TimesOf(m, c) == { At(m, c, i) : i \in { j \in N(m) : Leaves(m)[j].k = "time" } }
(* a schedule of which a part cannot be read is none: the account is refused or untimed, never timed with parts made up *)
Timing(m, c) == IF TimesOf(m, c) \subseteq Good THEN "timed" ELSE IF TimesOf(m, c) \subseteq Lost THEN "untimed" ELSE "refused or untimed"
Accepts(m, c) == \A i \in N(m) : Leaves(m)[i].k = "time" \/ Fine(Leaves(m)[i].k, At(m, c, i))
(* a missing flag is false; a missing delegate is none *)
Field(m, c, i) == [d |-> Leaves(m)[i].d, from |-> i, c |-> IF At(m, c, i) \in Lost THEN "default" ELSE At(m, c, i)]
Want(m, c) == IF ~Accepts(m, c) THEN [ok |-> FALSE]
              ELSE [ok |-> TRUE, timing |-> IF m = "state" THEN "none" ELSE Timing(m, c), fields |-> [i \in N(m) |-> Field(m, c, i)]]
NoCut == [n |-> "none", c |-> "none"]
Init == /\ mode \in Modes /\ dev = 0 /\ cut = NoCut
        /\ doc = [i \in N(mode) |-> "good"]
Deviate == /\ dev < MaxDev /\ cut = NoCut
           /\ \E i \in N(mode) : doc[i] = "good" /\ \E c \in Classes(Leaves(mode)[i].k) \ {"good"} : doc' = [doc EXCEPT ![i] = c]
           /\ dev' = dev + 1 /\ UNCHANGED << cut, mode >>
Cut == /\ cut = NoCut /\ dev < MaxDev
       /\ \E n \in Inner(mode), c \in {"absent", "null", "string", "number", "array"} : cut' = [n |-> n, c |-> c]
       /\ dev' = dev + 1 /\ UNCHANGED << doc, mode >>
Next == Deviate \/ Cut
Spec == Init /\ [][Next]_vars
(* every field has its own leaf, and every leaf its field *)
Distinct == \A m \in {"state", "account"} : Cardinality({ Leaves(m)[i].d : i \in N(m) }) = Len(Leaves(m)) /\ Cardinality({ Leaves(m)[i].p : i \in N(m) }) = Len(Leaves(m))
(* nothing read is made up: what is accepted is good, or one of the two things that may be missing *)
NothingInvented == LET w == Want(mode, cut) IN w.ok => \A i \in N(mode) : w.fields[i].c \in Good \/ Leaves(mode)[i].k \in {"bool", "optaddr", "time"}
Export == LET w == Want(mode, cut) IN
  CSVWrite("%1$s", << ToJson([mode |-> mode, doc |-> doc, cut |-> cut, ok |-> w.ok, timing |-> IF w.ok THEN w.timing ELSE "none",
                              fields |-> IF w.ok THEN [i \in N(mode) |-> w.fields[i].c] ELSE << >>]) >>, IOEnv.OUT)
Table == dev = 0 /\ cut = NoCut => CSVWrite("%1$s", << ToJson([mode |-> "leaves", which |-> mode, leaves |-> Leaves(mode)]) >>, IOEnv.OUT)
=============================================================================

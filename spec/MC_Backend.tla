------------------------------ MODULE MC_Backend ------------------------------
EXTENDS Backend, TLC, Json, CSV, IOUtils
CONSTANTS Depth, MaxList, Three, SetUp
vars == << kind, line, apis, accounts, job, chan, got, asked, log, docs >>
Answers == IF SetUp THEN {"good", "throw", "nothing", "text", "anyjson", "number"} ELSE {"good", "text"}
Ends == IF Three THEN << "a", "b", "c" >> ELSE << "a", "b" >>
Lists == UNION { [1..n -> Seq2Set(Ends)] : n \in 0..2 } \cup { << "a", "b", "c" >> }
Names == { << >>, << "x" >>, << "y", "x" >>, << "x", "x" >> }
Known == {"a", "b", "c"}
Settings == { [op |-> "open"], [op |-> "close"] } \cup
            IF kind = "v1" THEN {} ELSE { [op |-> "apis", list |-> l] : l \in Lists } \cup { [op |-> "accounts", list |-> l] : l \in Names }
(* answers of endpoints that are not asked do not matter *)
Asked == IF kind = "berkeley" THEN { f \in [Known -> Answers] : \A a \in Known : a \notin apis \/ line = "unset" => f[a] = "good" } ELSE {}
Rank == [a |-> 1, b |-> 2, c |-> 3]
Polls == IF line = "unset" /\ kind = "v1" THEN { [op |-> "poll", list |-> "good", answers |-> << "good" >>], [op |-> "query", answers |-> << "good" >>] }
         ELSE IF kind = "v1"
         THEN { [op |-> "poll", list |-> "good", answers |-> as] : as \in UNION { [1..n -> Answers] : n \in 0..MaxList } } \cup
              { [op |-> "poll", list |-> l, answers |-> << "good" >>] : l \in {"throw", "nothing", "text", "anyjson", "number"} } \cup
              { [op |-> "query", answers |-> << a >>] : a \in Answers }
         ELSE { [op |-> o, answers |-> f, rank |-> Rank] : o \in {"poll", "query"}, f \in Asked }
(* from scratch, or from a page that is set up *)
Step(o, l) == [op |-> o, list |-> l, err |-> FALSE, asked |-> << >>, got |-> << >>]
Ready == /\ line = "open" /\ job = Idle /\ chan = << >> /\ got = << >> /\ asked = << >> /\ docs = 0
         /\ \/ kind = "v1" /\ apis = {} /\ accounts = {} /\ log = << Step("open", << >>) >>
            \/ kind = "berkeley" /\ apis \in SUBSET Seq2Set(Ends) /\ accounts = {"x", "y"}
               /\ log = << Step("open", << >>), Step("apis", SetToSeq(apis)), Step("accounts", << "y", "x" >>) >>
Init == IF SetUp THEN Ready ELSE \E k \in {"v1", "berkeley"} : Start0(k)
Steps == Len(log) - (IF ~SetUp THEN 0 ELSE IF kind = "v1" THEN 1 ELSE 3)
Next == \/ Steps < Depth /\ \E s \in Settings : Set(s)
        \/ Steps < Depth /\ \E s \in Polls : Begin(s)
        \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)
Finishes == (job # Idle) ~> (job = Idle)
Export == (job = Idle /\ Steps = Depth) => CSVWrite("%1$s", << ToJson([kind |-> kind, log |-> log]) >>, IOEnv.OUT)
===============================================================================

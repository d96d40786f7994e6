------------------------------ MODULE MC_Ledger ------------------------------
EXTENDS Ledger, FiniteSetsExt, TLC, Json, CSV, IOUtils
CONSTANTS MaxEntries
vars == << db, fail, at, out, done >>
Places == { << 254 >>, << 254, 0, 0, 0 >>, << 254, 0, 0, 16 >>, << 254, 0, 1, 0 >>, << 254, 255 >> }
Others == { << >>, << 0, 254 >>, << 253, 255 >>, << 255 >>, << 255, 254 >> }
Values(k) == IF IsAccount(k) THEN {"A", "B", "cut", "trailing", "empty"} ELSE {"A", "junk"}
Fail == { << >> } \cup { << k >> : k \in { << >>, << 254 >>, << 254, 0, 0, 1 >>, << 254, 0, 1, 0 >>, << 254, 255, 255 >>, << 255 >> } }
Init == /\ \E ks \in UNION { kSubset(n, Places \cup Others) : n \in 0..MaxEntries } :
             db \in { d \in [ks -> {"A", "B", "cut", "trailing", "empty", "junk"}] : \A k \in ks : d[k] \in Values(k) }
        /\ fail \in Fail /\ Start
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Ends == <>done
Export == done => CSVWrite("%1$s", << ToJson([keys |-> Sorted(DOMAIN db), values |-> LET s == Sorted(DOMAIN db) IN [i \in 1..Len(s) |-> db[s[i]]], fail |-> fail, out |-> out]) >>, IOEnv.OUT)
=============================================================================

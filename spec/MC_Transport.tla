------------------------------ MODULE MC_Transport ------------------------------
EXTENDS Transport, TLC, Json, CSV, IOUtils
ConfigSet == {"default", "mainnet", "a", "b"}
TimeSet == {0, 1, 90, 86400}
Init == Start
Next == Step
Spec == Init /\ [][Next]_vars
Inv == KeepsLast /\ Identity
Export == CSVWrite("%1$s", << ToJson([steps |-> steps, made |-> made]) >>, IOEnv.OUT)
=================================================================================

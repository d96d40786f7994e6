------------------------------- MODULE MC_Pack -------------------------------
(* Chunked inputs of any shape: fields and packed values of any width        *)
EXTENDS StateInput, TLC, Json, CSV, IOUtils
CONSTANTS MaxItems, Sampled
VARIABLES items
Widths == {1, 2, 32, 64, 126, 127, 128, 190, 222, 253, 254}
Ones(w) == [i \in 1..w |-> 1]
Top(w) == [i \in 1..w |-> IF i = w THEN 1 ELSE 0]
Low1(w) == [i \in 1..w |-> IF i = 1 THEN 1 ELSE 0]
Zero(w) == [i \in 1..w |-> 0]
Vals == UNION { { Ones(w), Top(w), Low1(w), Zero(w) } : w \in Widths }
Item == { [t |-> "f", v |-> << n >>] : n \in {0, 5, -1} } \cup { [t |-> "b", v |-> v] : v \in Vals } \cup
        { [t |-> "u32", v |-> v] : v \in { Max(4), << 1, 2, 3, 132 >> } } \cup { [t |-> "u64", v |-> v] : v \in { Max(8), << 1, 2, 3, 4, 5, 6, 7, 136 >> } } \cup
        { [t |-> "bytes", v |-> v] : v \in { << >>, << 129, 2 >>, Max(32) } } \cup { [t |-> "bool", v |-> v] : v \in { << 0 >>, << 1 >> } }
Expand(x) == CASE x.t = "f" -> Fd(x.v[1]) [] x.t = "u32" -> Num(x.v) [] x.t = "u64" -> Num(x.v) [] x.t = "bytes" -> Singles(BitsOf(x.v)) [] x.t = "bool" -> Pk(x.v) [] OTHER -> << x >>
Init == items = << >>
Next == Len(items) < MaxItems /\ \E x \in IF Sampled THEN {RandomElement(Item)} ELSE Item : items' = Append(items, x)
Spec == Init /\ [][Next]_items
All == FlattenSeq([i \in 1..Len(items) |-> Expand(items[i])])
(* no chunk overflows, none but the last could have taken the value that came after it, and no bit is lost *)
Fits == \A i \in 1..Len(Chunks(All)) : Len(Chunks(All)[i]) <= 255
RECURSIVE Sum(_)
Sum(x) == IF x = << >> THEN 0 ELSE Len(Head(x)) + Sum(Tail(x))
Kept == Sum(Chunks(All)) = Len(Bits(All))
Export == CSVWrite("%1$s", << ToJson([items |-> items, fields |-> Fields(All), chunks |-> Chunks(All)]) >>, IOEnv.OUT)
=============================================================================

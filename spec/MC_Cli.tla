------------------------------- MODULE MC_Cli -------------------------------
(* The layout reader command.  The file holds either the raw bytes or their  *)
(* hexadecimal text: a file that consists of an even number of hexadecimal   *)
(* digits and nothing else is text, anything else is raw.  The bytes are     *)
(* read with the layout; on success the value is printed (or written to the  *)
(* output file), on failure nothing is and the command fails.  With          *)
(* --roundtrip it also fails unless the value writes back to exactly the     *)
(* bytes of the input, trailing bytes included.  A layout or data that cannot *)
(* be read and an output that cannot be written are failures whatever the    *)
(* rest; an output file that exists is replaced as a whole.                  *)
EXTENDS Layout, Json, CSV, IOUtils
VARIABLES rule, file, flag, sink, fault, out
vars == << lvars, rule, file, flag, sink, fault, out >>

Digit(b) == (b >= 48 /\ b <= 57) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
Nibble(b) == IF b <= 57 THEN b - 48 ELSE IF b <= 70 THEN b - 55 ELSE b - 87
IsHex(f) == Len(f) % 2 = 0 /\ \A i \in 1..Len(f) : Digit(f[i])
UnHex(f) == [i \in 1..(Len(f) \div 2) |-> 16 * Nibble(f[2 * i - 1]) + Nibble(f[2 * i])]
BytesOf(f) == IF IsHex(f) THEN UnHex(f) ELSE f
LowerD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
UpperD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexL(b) == [i \in 1..(2 * Len(b)) |-> LowerD(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]
HexU(b) == [i \in 1..(2 * Len(b)) |-> UpperD(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]

R0(t)    == << t >>
R1(t, x) == << t, x >>
Fld(n, r) == [field_name |-> n, field_rule |-> r]
Rules == { R0("Bool"), R0("Int"), R0("String"), R1("List", R0("Char")), R1("Option", R0("Int")),
           R1("Tuple", << R0("Char"), R0("Bool") >>), R1("Record", << Fld("a", R0("Int")), Fld("b", R1("Option", R0("Bool"))) >>),
           R1("Sum", << [ctor_name |-> "X", index |-> 0, ctor_args |-> << >>], [ctor_name |-> "Y", index |-> 1, ctor_args |-> << R0("Int") >>] >>),
           R0("Bigstring"), R1("Tuple", << >>), R0("Unit") }
(* layouts of the protocol nest deeply *)
RECURSIVE Nest(_)
Nest(d) == IF d = 0 THEN R0("Int") ELSE R1("Option", Nest(d - 1))
Depths == {40, 200}
Deep(d) == { [i \in 1..(d + 1) |-> IF i <= d THEN 1 ELSE 5], [i \in 1..d |-> 1], [i \in 1..d |-> IF i < d THEN 1 ELSE 0] }
Faults == {"layout missing", "layout is a directory", "layout is empty", "layout is no layout", "layout is cut", "data missing", "data is a directory"}
Long == << 254, 136, 19 >> \o [i \in 1..5000 |-> (i * 7) % 256]
Inputs == { << >>, << 0 >>, << 1 >>, << 2 >>, << 1, 0 >>, << 1, 1 >>, << 5, 0 >>, << 1, 1, 1 >>, << 1, 65 >>, << 254, 5, 0 >>, << 255, 200 >>,
            << 253, 0, 0, 1, 0 >>, << 254, 200, 0, 1, 1 >>, << 0, 2 >>, << 127 >>, << 128 >>, << 48 >>, << 48, 49 >>, << 52, 49 >>, << 48, 49, 10 >>, << 48, 120, 48, 49 >>,
            << 2, 48, 49 >>, Long, << 65, 65, 65, 65 >>, << 49, 48, 49 >> }
Forms(b) == { b, HexL(b), HexU(b), HexL(b) \o << 10 >> }

Init == /\ \/ rule \in Rules /\ \E b \in Inputs : file \in Forms(b)
           \/ \E d \in Depths : rule = Nest(d) /\ \E b \in Deep(d) : file \in Forms(b)
        /\ flag \in BOOLEAN /\ sink \in {"stdout", "file", "longer file", "no directory"} /\ (sink \in {"longer file", "no directory"} => Len(file) < 3) /\ (sink = "file" => Len(file) < 4)
        /\ fault \in Faults \cup {"none"} /\ (fault # "none" => Len(file) < 2 /\ sink \in {"stdout", "file"} /\ rule \in {R0("Bool"), R0("Unit"), R1("Tuple", << >>)})
        /\ LInit(rule, BytesOf(file), TRUE) /\ out = "none"
Keep == UNCHANGED << rule, file, flag, sink, fault >>
Read == out = "none" /\ LReader /\ Keep /\ UNCHANGED out
Output == /\ out = "none" /\ st # "run" /\ Keep /\ UNCHANGED lvars
         /\ out' = IF fault # "none" \/ sink = "no directory" THEN "fail" ELSE IF st # "ok" THEN "fail" ELSE IF flag /\ Enc(toks) # inp THEN "fail" ELSE "printed"
Next == Read \/ Output
Spec == Init /\ [][Next]_vars
(* with --roundtrip only canonical, complete documents are printed *)
Canonical == (out = "printed" /\ flag) => Enc(toks) = inp /\ pos = Len(inp)
Export == out # "none" => CSVWrite("%1$s", << ToJson([rule |-> rule, file |-> file, flag |-> flag, sink |-> sink, fault |-> fault, out |-> out, toks |-> toks]) >>, IOEnv.OUT)
=============================================================================

----------------------------- MODULE MC_Checker -----------------------------
(* The bin_prot checker command: for each of its tests it writes the sample  *)
(* value (to stdout, or to a file reporting the number of bytes) or reads    *)
(* bytes (from stdin or a file) and prints the value, or fails.  An output   *)
(* file that exists is replaced as a whole; input that cannot be read and    *)
(* output that cannot be written make the command fail.                      *)
EXTENDS BinProt, Json, CSV, IOUtils
VARIABLES test, mode, via
vars == << rvars, test, mode, via >>
P(k)       == [k |-> k, a |-> << >>, v |-> << >>]
C(k, a)    == [k |-> k, a |-> a, v |-> << >>]
V(s, n, a) == [s |-> s, n |-> n, a |-> a]
E3   == [k |-> "enum", a |-> << >>, v |-> << V("unit", << 65 >>, << >>), V("unit", << 66 >>, << >>), V("unit", << 67 >>, << >>) >>]
TypeOf == [nat0 |-> C("seq", << P("unit") >>), bool |-> P("bool"), int |-> P("i32"), int32 |-> P("i32"), int64 |-> P("i64"),
           enum |-> E3, record |-> C("struct", << P("i32"), P("bool"), E3 >>),
           variant |-> [k |-> "enum", a |-> << >>, v |-> << V("newtype", << 65 >>, << P("i32") >>), V("newtype", << 66 >>, << P("bool") >>),
                                                            V("newtype", << 67 >>, << E3 >>) >>]]
IntT(n) == Tok("int", FromNat(n))
Sample == [nat0 |-> << Tok("seq", FromNat(1)), Tok("unit", << >>) >>, bool |-> << Tok("bool", << 1 >>) >>,
           int |-> << IntT(12345) >>, int32 |-> << IntT(12345) >>, int64 |-> << IntT(12345) >>,
           enum |-> << Tok("var", << 0 >>) >>, record |-> << IntT(15), Tok("bool", << 1 >>), Tok("var", << 2 >>) >>,
           variant |-> << Tok("var", << 0 >>), IntT(15) >>]
Bytes == UNION { [1..n -> {0, 1, 2, 3, 127, 254, 255}] : n \in 0..2 }
         \cup { << 1, 253, 255, 255, 255, 127 >>, << 253, 0, 0, 0, 128 >>, << 252, 0, 0, 0, 0, 1, 0, 0, 0 >>, << 252, 255, 255, 255, 255, 255, 255, 255, 127 >>,
                << 0, 253, 0, 0, 0, 128 >>, << 254, 57, 48 >>, << 254, 57, 48, 1, 2 >>, << 5, 1, 1 >>, << 5, 0, 2 >>, << 5, 1, 3 >>, << 2, 1 >>, << 2, 2 >>,
                << 3, 0, 0, 0 >>, << 3, 0, 0, 1 >>, << 255, 128, 0, 1 >> }
Broken == {"no directory", "full device", "full pipe", "missing file", "directory"}
Init == /\ test \in DOMAIN TypeOf
        /\ \/ mode = "write" /\ via \in {"pipe", "file", "longer file", "no directory", "full device", "full pipe"}
              /\ RInit(TypeOf[test], Enc(Sample[test]), TRUE)
           \/ mode = "read" /\ via \in {"pipe", "file", "missing file", "directory"}
              /\ \E b \in Bytes : RInit(TypeOf[test], b, TRUE) /\ (via = "file" => Len(b) # 2) /\ (via \in Broken => Len(b) = 0)
Next == Reader /\ UNCHANGED << test, mode, via >>
Spec == Init /\ [][Next]_vars
(* the sample of every test is readable as that test *)
Sound == (mode = "write" /\ st # "run") => st = "ok" /\ toks = Sample[test] /\ pos = Len(inp)
Export == st # "run" => CSVWrite("%1$s", << ToJson([test |-> test, mode |-> mode, via |-> via, in |-> inp, st |-> IF via \in Broken THEN "fail" ELSE st, toks |-> toks]) >>, IOEnv.OUT)
=============================================================================

------------------------------ MODULE MC_Write ------------------------------
(* The writer: starting from a type it picks, item by item, any value of a   *)
(* boundary domain and appends its encoding to `out` (one action per         *)
(* serialize_* method of protocol/bin-prot/src/ser.rs).  When the value is   *)
(* complete it is exported as a conformance case and then read back by the   *)
(* typed reader: the value must come back and every byte must be consumed.   *)
EXTENDS BinProt, Json, CSV, IOUtils

CONSTANTS MaxSeq, Tier

VARIABLES ty, phase, wtoks, out
wvars == << ty, phase, wtoks, out >>
vars == << rvars, wvars >>

P(k)         == [k |-> k, a |-> << >>, v |-> << >>]
C(k, a)      == [k |-> k, a |-> a, v |-> << >>]
V(s, n, a)   == [s |-> s, n |-> n, a |-> a]
E(k, v)      == [k |-> k, a |-> << >>, v |-> v]
lA == << 65 >>
lBc == << 66, 99 >>
lNone == << 78, 111, 110, 101 >>
lSome == << 83, 111, 109, 101 >>

En4 == E("enum", << V("unit", lA, << >>), V("newtype", lBc, << P("bool") >>),
                    V("tuple", lNone, << P("bool"), P("u8") >>),
                    V("struct", lSome, << P("bool"), P("unit"), P("bool") >>) >>)
Po3 == E("poly", << V("unit", lNone, << >>), V("newtype", lSome, << P("bool") >>),
                    V("tuple", lBc, << P("bool"), P("bool") >>) >>)

Prims == {"unit", "ustruct", "bool", "char", "u8", "f32", "f64", "str"} \cup IntKinds
Small ==
  { P(k) : k \in Prims }
  \cup { C("opt", << P(k) >>) : k \in Prims }
  \cup { C("newtype", << P(k) >>) : k \in Prims }
  \cup { C("seq", << P(k) >>) : k \in {"bool", "unit", "u8"} }
  \cup { C("seq", << C("opt", << P("bool") >>) >>), C("seq", << C("seq", << P("bool") >>) >>),
         C("tuple", << P("i16"), P("bool") >>), C("tuple", << P("bool"), P("i64") >>),
         C("tstruct", << P("u8"), P("u16"), P("unit") >>),
         C("struct", << P("bool"), C("opt", << P("u8") >>), P("str"), P("bool") >>),
         C("struct", << >>), C("opt", << C("opt", << P("bool") >>) >>),
         En4, Po3, C("seq", << En4 >>), C("tuple", << Po3, En4 >>), C("opt", << Po3 >>),
         C("struct", << C("seq", << P("bool") >>), C("seq", << P("u8") >>) >>) }
Large == { C("tuple", << P(k1), P(k2) >>) : k1, k2 \in {"i8", "i32", "u64", "char", "f32", "str"} }
         \cup { C("seq", << P(k) >>) : k \in {"i8", "u16"} }
Catalogue == IF Tier = "thorough" THEN Small \cup Large ELSE Small

(* 8 byte patterns around every byte boundary of the format *)
Patterns == { [i \in 1..8 |-> IF i < n THEN lo ELSE IF i = n THEN b ELSE hi] :
              n \in 1..8, lo \in {0, 255}, b \in {0, 1, 127, 128, 254, 255}, hi \in {0, 255} }
(* values a destination can hold (u64 above i64::MAX is outside the format) *)
Dom(k) ==
  CASE k \in {"unit", "ustruct"} -> { Tok("unit", << >>) }
    [] k = "bool" -> { Tok("bool", << b >>) : b \in {0, 1} }
    [] k = "char" -> { Tok("char", << b >>) : b \in {0, 65, 127, 128, 255} }
    [] k = "u8" -> { Tok("u8", << b >>) : b \in {0, 1, 127, 128, 254, 255} }
    [] k \in IntKinds -> { Tok("int", x) : x \in { p \in Patterns : InRange(p, k) } }
    [] k = "f32" -> { Tok("f32", << a, 0, b, c >>) : a \in {0, 1}, b \in {0, 128}, c \in {0, 63, 127, 191} }
    [] k = "f64" -> { Tok("f64", << a, 0, 0, 0, 0, 0, b, c >>) : a \in {0, 1}, b \in {0, 240}, c \in {0, 63, 191} }
    [] k = "str" -> { Tok("str", s) : s \in { << >>, << 0 >>, << 65, 66, 67 >>, << 195, 169 >>,
                       << 240, 159, 152, 128 >>, [i \in 1..127 |-> 97], [i \in 1..128 |-> 98],
                       [i \in 1..256 |-> 99] } }

Init == \E t \in Catalogue : /\ ty = t /\ phase = 1 /\ wtoks = << >> /\ out = << >>
                             /\ todo = << t >> /\ inp = << >> /\ closed = FALSE /\ pos = 0
                             /\ toks = << >> /\ st = "write"

W == phase = 1 /\ todo # << >>
Put(k, more) == /\ wtoks' = Append(wtoks, k) /\ out' = out \o EncTok(k) /\ todo' = more \o Rest
                /\ UNCHANGED << inp, closed, pos, toks, st, ty, phase >>
Silent(more) == /\ todo' = more \o Rest
                /\ UNCHANGED << inp, closed, pos, toks, st, ty, phase, wtoks, out >>
WritePrim == W /\ Top.k \in Prims /\ \E k \in Dom(Top.k) : Put(k, << >>)
WriteNone == W /\ Top.k = "opt" /\ Put(Tok("none", << >>), << >>)
WriteSome == W /\ Top.k = "opt" /\ Put(Tok("some", << >>), << Top.a[1] >>)
WriteProduct == W /\ Top.k \in {"newtype", "tuple", "tstruct", "struct"} /\ Silent(Top.a)
WriteSeq  == W /\ Top.k = "seq" /\ \E n \in 0..MaxSeq :
               Put(Tok("seq", FromNat(n)), [i \in 1..n |-> Top.a[1]])
WriteEnum == W /\ Top.k = "enum" /\ \E i \in 1..Len(Top.v) :
               Put(Tok("var", << i - 1 >>), Top.v[i].a)
WritePoly == W /\ Top.k = "poly" /\ \E i \in 1..Len(Top.v) :
               Put(Tok("poly", Top.v[i].n), Top.v[i].a)
Written   == phase = 1 /\ todo = << >>
ReadBack  == /\ Written /\ phase' = 2 /\ todo' = << ty >> /\ inp' = out /\ closed' = TRUE
             /\ pos' = 0 /\ toks' = << >> /\ st' = "run" /\ UNCHANGED << ty, wtoks, out >>

Next == WritePrim \/ WriteNone \/ WriteSome \/ WriteProduct \/ WriteSeq \/ WriteEnum \/ WritePoly
        \/ ReadBack \/ (phase = 2 /\ Reader /\ UNCHANGED wvars)
Spec == Init /\ [][Next]_vars

RoundTrip == (phase = 2 /\ st # "run") => (st = "ok" /\ toks = wtoks /\ pos = Len(out))
Homomorphic == out = Enc(wtoks)

OutFile == IOEnv.OUT
Export == Written => CSVWrite("%1$s", << ToJson([ty |-> ty, toks |-> wtoks, out |-> out]) >>, OutFile)
=============================================================================

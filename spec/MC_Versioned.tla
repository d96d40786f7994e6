---------------------------- MODULE MC_Versioned ----------------------------
(* Version wrappers on the wire.  A value wrapped k times is the k version   *)
(* numbers, outermost first, each written as an ordinary integer, followed   *)
(* by the value.  Reading keeps the version numbers found on the wire (it    *)
(* does not compare them with the declared ones); a number that does not fit *)
(* 16 bits is refused.  Building a wrapper uses the declared versions.       *)
EXTENDS BinProt, Json, CSV, IOUtils
VARIABLES stack, pay, mode, val
vars == << rvars, stack, pay, mode, val >>

P(k)    == [k |-> k, a |-> << >>, v |-> << >>]
C(k, a) == [k |-> k, a |-> a, v |-> << >>]
Payloads == { P("unit"), P("bool"), P("i32"), P("str"), C("opt", << P("u8") >>), C("struct", << P("bool"), P("u16") >>) }
Stacks == { << v >> : v \in {0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535} }
          \cup { << 1, 2 >>, << 2, 1 >>, << 65535, 0 >>, << 3, 128 >>, << 1, 2, 3 >>, << 40000, 5, 300 >>,
                 << 1, 2, 3, 4 >>, << 9, 8, 7, 65535 >> }
ReadStacks == { << 1 >>, << 128 >>, << 1, 2 >>, << 1, 2, 3 >>, << 1, 2, 3, 4 >> }
Values(t) == CASE t.k = "unit" -> { << Tok("unit", << >>) >> }
               [] t.k = "bool" -> { << Tok("bool", << b >>) >> : b \in {0, 1} }
               [] t.k = "i32"  -> { << Tok("int", ExtendSigned(w)) >> : w \in { << 5, 0 >>, << 255, 127 >>, << 0, 0, 0, 128 >>, << 255 >> } }
               [] t.k = "str"  -> { << Tok("str", << >>) >>, << Tok("str", << 104, 195, 169 >>) >> }
               [] t.k = "opt"  -> { << Tok("none", << >>) >>, << Tok("some", << >>), Tok("u8", << 200 >>) >> }
               [] OTHER        -> { << Tok("bool", << 1 >>), Tok("int", ExtendUnsigned(<< 255, 255 >>)) >> }
RECURSIVE Wrapped(_, _)
Wrapped(k, t) == IF k = 0 THEN t ELSE C("struct", << P("u16"), Wrapped(k - 1, t) >>)
VerTok(v) == Tok("int", << v % 256, v \div 256, 0, 0, 0, 0, 0, 0 >>)
Made(s, ts) == [i \in 1..Len(s) |-> VerTok(s[i])] \o ts

(* version numbers offered on the wire, in every encoding *)
WireVersions == { << 0 >>, << 1 >>, << 127 >>, << 254, 128, 0 >>, << 254, 255, 127 >>, << 253, 0, 128, 0, 0 >>, << 253, 255, 255, 0, 0 >>,
                  << 253, 0, 0, 1, 0 >>, << 254, 1, 0 >>, << 252, 7, 0, 0, 0, 0, 0, 0, 0 >>, << 255, 255 >>, << 254, 0, 128 >>,
                  << 128 >>, << 200 >>, << 254, 1 >> }
Tails == { << >>, << 0 >>, << 1 >>, << 1, 65, 1 >>, << 2, 0 >> }
RECURSIVE Heads(_)
Heads(k) == IF k = 1 THEN WireVersions
            ELSE { h \o << 1 >> : h \in Heads(k - 1) } \cup { << 2 >> \o h : h \in Heads(k - 1) }

Init == \/ /\ mode = "make" /\ stack \in Stacks /\ pay \in Payloads /\ \E ts \in Values(pay) :
              /\ val = ts
              /\ RInit(Wrapped(Len(stack), pay), Enc(Made(stack, ts)), TRUE)
        \/ /\ mode = "dec" /\ stack \in ReadStacks /\ pay \in Payloads /\ val = << >>
           /\ \E h \in Heads(Len(stack)), t \in Tails : RInit(Wrapped(Len(stack), pay), h \o t, TRUE)
Next == Reader /\ UNCHANGED << stack, pay, mode, val >>
Spec == Init /\ [][Next]_vars

Done == st # "run"
(* what is made reads back as made, versions included *)
RoundTrip == (Done /\ mode = "make") => st = "ok" /\ toks = Made(stack, val) /\ pos = Len(inp)
Prefix == (Done /\ mode = "dec" /\ st = "ok") => \A i \in 1..Len(stack) : FitsUnsigned(toks[i].b, 2)
Case == [mode |-> mode, stack |-> stack, ty |-> pay, toks |-> val, in |-> inp, st |-> st, n |-> pos, got |-> toks, re |-> IF st = "ok" THEN Enc(toks) ELSE << >>]
Export == Done => CSVWrite("%1$s", << ToJson(Case) >>, IOEnv.OUT)
=============================================================================

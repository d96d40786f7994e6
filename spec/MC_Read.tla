------------------------------ MODULE MC_Read ------------------------------
(* Exhaustive exploration of the typed reader: for every catalogue type the  *)
(* environment supplies, byte by byte and only when the reader asks, any     *)
(* byte of a boundary alphabet, or ends the input; after a complete value it *)
(* may append a trailing byte.  Every finished behaviour is written out as a *)
(* conformance case.  Phase 2 re-reads the canonical encoding of the value.  *)
EXTENDS BinProt, Json, CSV, IOUtils

CONSTANTS MaxStr, MaxSeq   \* bounds on inputs that contain strings / sequences

VARIABLES ty, phase, want, rb
vars == << rvars, ty, phase, want, rb >>

P(k)         == [k |-> k, a |-> << >>, v |-> << >>]
C(k, a)      == [k |-> k, a |-> a, v |-> << >>]
V(s, n, a)   == [s |-> s, n |-> n, a |-> a]
E(k, v)      == [k |-> k, a |-> << >>, v |-> v]

lA == << 65 >>                \* "A"
lBc == << 66, 99 >>           \* "Bc"
lNone == << 78, 111, 110, 101 >>   \* "None"

Catalogue ==
  { P(k) : k \in {"unit", "ustruct", "bool", "char", "u8", "f32", "f64", "str"} \cup IntKinds }
  \cup { C("opt", << P(k) >>) : k \in {"bool", "unit", "i16", "str"} }
  \cup { C("seq", << P(k) >>) : k \in {"bool", "i8", "unit"} }
  \cup { C("tuple", << P("bool"), P("i8") >>),
         C("tstruct", << P("u8"), P("bool"), P("unit") >>),
         C("struct", << P("bool"), C("opt", << P("u8") >>), P("bool") >>),
         C("newtype", << P("u16") >>),
         C("opt", << C("opt", << P("bool") >>) >>),
         C("seq", << C("opt", << P("bool") >>) >>),
         C("seq", << C("seq", << P("bool") >>) >>),
         C("struct", << >>),
         E("enum", << V("unit", lA, << >>), V("newtype", lBc, << P("bool") >>),
                      V("tuple", lNone, << P("bool"), P("bool") >>),
                      V("struct", lA, << P("u8") >>) >>),
         E("poly", << V("unit", lA, << >>), V("newtype", lBc, << P("bool") >>) >>),
         E("poly", << V("unit", lNone, << >>) >>),
         C("tuple", << E("enum", << V("unit", lA, << >>), V("unit", lBc, << >>) >>), P("bool") >>) }

(* boundary alphabets, by item kind and offset inside the item *)
LeadInt  == {0, 1, 127, 128, 129, 251, 252, 253, 254, 255}
LeadNat  == {0, 1, 2, 3, 127, 128, 251, 252, 253, 254, 255}
Payload(w, off) == CASE w = 2 -> {0, 1, 127, 128, 255}
                     [] w = 3 -> {0, 1, 127, 128, 255}
                     [] w = 5 -> IF off = 4 THEN {0, 127, 128, 255} ELSE {0, 128, 255}
                     [] w = 9 -> IF off = 8 THEN {0, 127, 128, 255} ELSE {0, 255}
                     [] OTHER -> {0}
PolyBytes(t, off) == {0, 1} \cup { TagWire(Hash(t.v[i].n))[off + 1] : i \in 1..Len(t.v) }
Alpha(t, off) ==
  CASE t.k \in {"unit", "ustruct"} -> {0, 1, 255}
    [] t.k = "bool" -> {0, 1, 2, 128, 255}
    [] t.k \in {"char", "u8"} -> {0, 65, 127, 128, 255}
    [] t.k = "opt" -> {0, 1, 2, 255}
    [] t.k = "enum" -> (0..Len(t.v)) \cup {255}
    [] t.k \in IntKinds -> IF off = 0 THEN LeadInt ELSE Payload(IntNeed, off)
    [] t.k = "f32" -> {0, 63, 128}
    [] t.k = "f64" -> {0, 191}
    [] t.k = "str" -> IF off = 0 THEN LeadNat
                      ELSE IF off < Nat0Need THEN (IF off = 1 THEN {0, 1, 2} ELSE {0})
                      ELSE {0, 65, 128, 169, 195, 237, 244}
    [] t.k = "seq" -> IF off = 0 THEN LeadNat
                      ELSE IF off = 1 THEN {0, 1, 2} ELSE {0}
    [] t.k = "poly" -> PolyBytes(t, off)
    [] OTHER -> {0}

Init == \E t \in Catalogue : ty = t /\ RInit(t, << >>, FALSE) /\ phase = 1 /\ want = << >> /\ rb = << >>

RECURSIVE Has(_, _)
Has(t, k) == t.k = k \/ \E i \in 1..Len(t.a) : Has(t.a[i], k)
MaxLen == IF Has(ty, "str") THEN MaxStr ELSE IF Has(ty, "seq") THEN MaxSeq ELSE 12
Starved == Running /\ todo # << >> /\ Avail < Need(Top) /\ ~closed
EnvByte == /\ Starved /\ Len(inp) < MaxLen
           /\ \E b \in Alpha(Top, Avail) : inp' = Append(inp, b)
           /\ UNCHANGED << todo, closed, pos, toks, st, ty, phase, want, rb >>
EnvEof  == /\ Starved /\ closed' = TRUE
           /\ UNCHANGED << todo, inp, pos, toks, st, ty, phase, want, rb >>
EnvEnd  == /\ st # "run" /\ ~closed /\ phase = 1 /\ closed' = TRUE
           /\ inp' \in (IF st = "ok" THEN { inp, Append(inp, 0) } ELSE { inp })
           /\ UNCHANGED << todo, pos, toks, st, ty, phase, want, rb >>
Done1   == phase = 1 /\ st # "run" /\ closed
ReRead  == /\ Done1 /\ st = "ok" /\ phase' = 2 /\ want' = toks /\ rb' = SubSeq(inp, 1, pos)
           /\ todo' = << ty >> /\ inp' = Enc(toks) /\ closed' = TRUE /\ pos' = 0
           /\ toks' = << >> /\ st' = "run" /\ ty' = ty

Next == \/ (Reader /\ UNCHANGED << ty, phase, want, rb >>) \/ EnvByte \/ EnvEof \/ EnvEnd \/ ReRead

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Properties of the design *)
RoundTrip == (phase = 2 /\ st # "run") => (st = "ok" /\ toks = want /\ pos = Len(inp))
(* the canonical encoding is never longer than any other accepted encoding *)
Shortest  == (phase = 2) => Len(inp) <= Len(rb)
Bounded   == pos <= Len(inp)
Terminates == <>(st # "run")
(* a value is only delivered when all of its bytes were there *)
NoInvention == (phase = 1 /\ st = "ok") => pos <= Len(inp) /\ todo = << >>
(* accepted leading bytes are exactly the documented ones *)
LeadOk == (phase = 1 /\ st = "ok" /\ ty.k \in IntKinds) => ~BadLead(inp[1], TRUE)

OutFile == IOEnv.OUT
Case == [ty |-> ty, in |-> inp, st |-> st, n |-> pos, toks |-> toks, strict |-> Strict]
Export == Done1 => CSVWrite("%1$s", << ToJson(Case) >>, OutFile)
=============================================================================

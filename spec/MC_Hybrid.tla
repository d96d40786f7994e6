----------------------------- MODULE MC_Hybrid -----------------------------
(* Reading a compiled type while a layout drives the reader.  For a layout   *)
(* that describes the type, the answer must be the one the typed reader      *)
(* gives on the same bytes: same verdict, same value, same bytes consumed.   *)
(* Here both readers are specified; the layout reader runs first (it decides *)
(* which bytes are looked at), then the typed reader re-reads the very same  *)
(* bytes, and the two answers are compared in the model.                     *)
(* A field of type "value" stands for a bin_prot::Value.                     *)
EXTENDS Layout, Json, CSV, IOUtils

B == INSTANCE BinProt

VARIABLES pair, phase, lst, ltoks, lpos
vars == << lvars, pair, phase, lst, ltoks, lpos >>

R0(t)       == << t >>
R1(t, x)    == << t, x >>
Fld(n, r)   == [field_name |-> n, field_rule |-> r]
Ref(p, r)   == << "Reference", << "Resolved", [source_type_decl |-> "t", source_module_path |-> p,
                                               bin_io_derived |-> TRUE, ref_rule |-> r] >> >>
P(k)    == [k |-> k, a |-> << >>, v |-> << >>, f |-> << >>]
C(k, a) == [k |-> k, a |-> a, v |-> << >>, f |-> << >>]
S(f, a) == [k |-> "struct", a |-> a, v |-> << >>, f |-> f]
BoolR == R0("Bool")

(* layout, type, the type the typed reader sees (fields in layout order) *)
Pairs ==
  { << R0("Unit"), P("unit") >>, << BoolR, P("bool") >>, << R0("Char"), P("char") >>,
    << R0("Float"), P("f64") >>, << R0("String"), P("str") >> }
  \cup { << R0("Int"), P(k) >> : k \in {"i8", "i16", "i32", "i64", "u16", "u32", "u64"} }
  \cup { << R0(r), P("i64") >> : r \in {"Int32", "Int64", "Native_int"} }
  \cup { << R1("Option", BoolR), C("opt", << P("bool") >>) >>,
         << R1("Option", R1("Option", R0("Char"))), C("opt", << C("opt", << P("char") >>) >>) >>,
         << R1("List", BoolR), C("seq", << P("bool") >>) >>,
         << R1("List", R1("Option", BoolR)), C("seq", << C("opt", << P("bool") >>) >>) >>,
         << R1("List", R1("List", BoolR)), C("seq", << C("seq", << P("bool") >>) >>) >>,
         << R1("Tuple", << BoolR, R0("Unit"), R0("Char") >>), C("tuple", << P("bool"), P("unit"), P("char") >>) >>,
         << R1("Tuple", << BoolR, R0("Int") >>), C("tstruct", << P("bool"), P("i8") >>) >>,
         << R1("Record", << Fld("a", BoolR), Fld("b", R0("Int")) >>), S(<< "a", "b" >>, << P("bool"), P("i16") >>) >>,
         << R1("Record", << Fld("a", R1("Record", << Fld("x", BoolR), Fld("y", R0("Char")) >>)), Fld("b", R1("List", BoolR)) >>),
            S(<< "a", "b" >>, << S(<< "x", "y" >>, << P("bool"), P("char") >>), C("seq", << P("bool") >>) >>) >>,
         << R1("Record", << >>), S(<< >>, << >>) >>,
         << Ref("A.B", R1("Record", << Fld("q", Ref("C", R1("Option", R0("Unit")))), Fld("r", BoolR) >>)),
            S(<< "q", "r" >>, << C("opt", << P("unit") >>), P("bool") >>) >>,
         << R1("List", R1("Tuple", << BoolR, BoolR >>)), C("seq", << C("tuple", << P("bool"), P("bool") >>) >>) >>,
         << R1("List", R1("Record", << Fld("a", BoolR) >>)), C("seq", << S(<< "a" >>, << P("bool") >>) >>) >> }

LeadInt  == {0, 1, 127, 128, 251, 252, 253, 254, 255}
LeadNat  == {0, 1, 2, 3, 128, 252, 253, 254, 255}
Payload(w, off) == IF w = 9 /\ off < 7 THEN {0, 255} ELSE {0, 127, 128, 255}
Alpha(r, off) ==
  CASE r[1] = "Unit" -> {0, 1}
    [] r[1] = "Bool" -> {0, 1, 2}
    [] r[1] = "Char" -> {0, 65, 128, 255}
    [] r[1] = "Option" -> {0, 1, 2}
    [] r[1] \in IntRules -> IF off = 0 THEN LeadInt ELSE Payload(IntNeed, off)
    [] r[1] = "Float" -> {0, 191}
    [] r[1] = "String" -> IF off = 0 THEN LeadNat ELSE IF off < Nat0Need THEN {0, 1} ELSE {0, 65, 195, 169}
    [] r[1] = "List" -> IF off = 0 THEN LeadNat ELSE IF off = 1 THEN {0, 1, 2} ELSE {0}
    [] OTHER -> {0}

Stay == UNCHANGED << pair, phase, lst, ltoks, lpos >>
Init == \E p \in Pairs : pair = p /\ LInit(p[1], << >>, FALSE) /\ phase = 1
                         /\ lst = "" /\ ltoks = << >> /\ lpos = 0
Starved == phase = 1 /\ Running /\ todo # << >> /\ Avail < LNeed(Top) /\ ~closed
MaxLen == IF pair[1][1] \in {"List", "String"} THEN 5 ELSE 10
EnvByte == /\ Starved /\ Len(inp) < MaxLen /\ \E b \in Alpha(Top, Avail) : inp' = Append(inp, b)
           /\ UNCHANGED << todo, closed, pos, toks, st, path >> /\ Stay
EnvEof  == /\ Starved /\ closed' = TRUE /\ UNCHANGED << todo, inp, pos, toks, st, path >> /\ Stay
EnvEnd  == /\ phase = 1 /\ st # "run" /\ ~closed /\ closed' = TRUE
           /\ inp' \in (IF st = "ok" THEN { inp, Append(inp, 1) } ELSE { inp })
           /\ UNCHANGED << todo, pos, toks, st, path >> /\ Stay
Typed   == /\ phase = 1 /\ st # "run" /\ closed /\ phase' = 2
           /\ lst' = st /\ ltoks' = toks /\ lpos' = pos
           /\ todo' = << pair[2] >> /\ pos' = 0 /\ toks' = << >> /\ st' = "run"
           /\ UNCHANGED << inp, closed, path, pair >>
Next == \/ (phase = 1 /\ LReader /\ UNCHANGED << pair, phase, lst, ltoks, lpos >>)
        \/ EnvByte \/ EnvEof \/ EnvEnd \/ Typed
        \/ (phase = 2 /\ B!Reader /\ UNCHANGED << path, pair, phase, lst, ltoks, lpos >>)
Spec == Init /\ [][Next]_vars

Done == phase = 2 /\ st # "run"
Ok(s) == s = "ok"
(* what a destination may refuse although the layout accepts it *)
Narrow == lst = "ok" /\ st \in {"DestinationIntegerOverflow", "Io"}
Agree == Done => (((Ok(lst) = Ok(st)) /\ (Ok(st) => lpos = pos)) \/ Narrow)
SameBytes == (Done /\ Ok(st)) => Enc(toks) = Enc(ltoks)

Case == [rule |-> pair[1], ty |-> pair[2], in |-> inp, ok |-> Ok(st), n |-> pos, toks |-> toks]
Export == Done => CSVWrite("%1$s", << ToJson(Case) >>, IOEnv.OUT)
=============================================================================

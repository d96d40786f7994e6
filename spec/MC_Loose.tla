------------------------------ MODULE MC_Loose ------------------------------
(* Exhaustive exploration of the layout driven reader over a catalogue of    *)
(* layouts; the environment supplies boundary bytes on demand.  Every        *)
(* finished behaviour is exported as a conformance case; phase 2 re-reads    *)
(* the re-encoded value with the same layout.                                *)
EXTENDS Layout, Json, CSV, IOUtils

CONSTANTS MaxStr, MaxLst, MaxAny

VARIABLES rule, phase, want, rb
vars == << lvars, rule, phase, want, rb >>

R0(t)       == << t >>
R1(t, x)    == << t, x >>
Fld(n, r)   == [field_name |-> n, field_rule |-> r]
Ctor(n, i, a) == [ctor_name |-> n, index |-> i, ctor_args |-> a]
Tagged(n, h, a) == << "Tagged", [polyvar_name |-> n, hash |-> h, polyvar_args |-> a] >>
Ref(p, r)   == << "Reference", << "Resolved", [source_type_decl |-> "t", source_module_path |-> p,
                                               bin_io_derived |-> TRUE, ref_rule |-> r] >> >>
RefNoPath(r) == << "Reference", << "Resolved", [source_type_decl |-> "t", ref_rule |-> r] >> >>
Unres       == << "Reference", << "Unresolved", [params |-> << >>, layout_id |-> "x"] >> >>
B == R0("Bool")
C1 == R0("Char")

SumRule == R1("Sum", << Ctor("one", 0, << R0("Int") >>), Ctor("two", 1, << >>),
                        Ctor("three", 2, << B, R1("Record", << Fld("x", B) >>) >>) >>)
PolyRule == R1("Polyvar", << Tagged("One", 3953222, << B >>), Tagged("Two", 4203884, << >>) >>)

Catalogue ==
  { R0(t) : t \in {"Unit", "Bool", "Char", "Int", "Int32", "Int64", "Native_int", "Float", "String",
                   "Nat0", "Bigstring"} }
  \cup { R1("Option", B), R1("Option", R1("Option", R0("Char"))), R1("Option", R1("List", B)),
         R1("List", B), R1("List", R1("Option", B)), R1("List", R1("List", B)),
         R1("List", SumRule), R1("List", R0("Unit")),
         R1("Tuple", << B, R0("Unit"), C1 >>), R1("Tuple", << >>),
         R1("Tuple", << R1("List", B), R1("Option", B) >>),
         R1("Record", << Fld("first", B), Fld("second", R1("Record", << Fld("inner", B) >>)),
                         Fld("third", R1("Option", B)) >>),
         R1("Record", << Fld("a", R1("Tuple", << B, B >>)), Fld("b", B) >>),
         SumRule, PolyRule,
         R1("Tuple", << SumRule, B >>), R1("Tuple", << PolyRule, C1 >>),
         R1("Polyvar", << << "Inherited", B >> >>),
         R1("Option", SumRule), R1("Record", << Fld("s", SumRule), Fld("t", B) >>),
         Ref("Foo.Bar", R1("Tuple", << B, Ref("Foo", B) >>)), RefNoPath(B), Unres,
         R1("Custom", << >>), Ref("State_hash", R1("Custom", << >>)),
         Ref("Epoch_seed", R1("Custom", << >>)),
         Ref("Nowhere", R1("Custom", << >>)), RefNoPath(R1("Custom", << B >>)),
         R1("Tuple", << Ref("Ledger_hash0", R1("Custom", << >>)), B >>),
         R1("Tuple", << Ref("Foo", B), Ref("State_body_hash", R1("Custom", << >>)), B >>),
         Ref("Pickles_type.Vector.Vector2", R1("Custom", << B >>)),
         Ref("Pickles_types.Vector.Vector2", R1("Custom", << R1("Option", B) >>)),
         Ref("Pickles_types.Vector.Vector4", R1("Custom", << B >>)),
         Ref("Pickles_types.Vector.Vector8", R1("Custom", << R0("Unit") >>)),
         Ref("Pickles_types.Vector.Vector17", R1("Custom", << R0("Unit") >>)),
         Ref("Pickles_types.Vector.Vector18", R1("Custom", << R0("Unit") >>)),
         R1("Tuple", << Ref("Pickles_types.Vector.Vector2", R1("Custom", << B >>)), B >>),
         Ref("Pickles_types.Vector.Vector4", R1("Custom", << >>)),
         << "Vec", 2, B >>, << "Hashtable", [key_rule |-> B, value_rule |-> B] >>,
         << "Type_var", "a" >>, << "Self_reference", << >> >>,
         << "Type_abstraction", << "a" >>, B >>, << "Type_closure", << >>, B >> }

LeadInt  == {0, 1, 127, 128, 251, 252, 253, 254, 255}
LeadNat  == {0, 1, 2, 3, 127, 128, 252, 253, 254, 255}
Payload(w, off) == CASE w = 2 -> {0, 127, 128, 255}
                     [] w = 3 -> {0, 127, 128, 255}
                     [] w = 5 -> IF off = 4 THEN {0, 127, 128, 255} ELSE {0, 255}
                     [] w = 9 -> IF off = 8 THEN {0, 127, 128, 255} ELSE {0, 255}
                     [] OTHER -> {0}
InRun == Len(todo) > 1 /\ todo[2][1] = "rep"
PolyBytes(r, off) == {1} \cup UNION { { TagWire(FromNat4(r[2][i][2].hash))[off + 1],
                                        TagWire(FromNat4(r[2][i][2].hash))[off + 1] - (IF off = 0 THEN 1 ELSE 0) }
                                      : i \in { j \in 1..Len(r[2]) : r[2][j][1] = "Tagged" } }
Alpha(r, off) ==
  CASE r[1] = "Unit" -> {0, 1}
    [] r[1] = "Bool" -> {0, 1, 2}
    [] r[1] = "Char" -> IF InRun THEN {(pos * 37 + 5) % 256} ELSE {0, 65, 128, 255}
    [] r[1] = "Option" -> {0, 1, 2}
    [] r[1] = "Sum" -> (0..Len(r[2])) \cup {255}
    [] r[1] \in IntRules -> IF off = 0 THEN LeadInt ELSE Payload(IntNeed, off)
    [] r[1] = "Float" -> {0, 191}
    [] r[1] = "String" -> IF off = 0 THEN LeadNat
                          ELSE IF off < Nat0Need THEN (IF off = 1 THEN {0, 1, 2} ELSE {0})
                          ELSE {0, 65, 128, 255}
    [] r[1] = "List" -> IF off = 0 THEN LeadNat ELSE IF off = 1 THEN {0, 1, 2} ELSE {0}
    [] r[1] = "Polyvar" -> PolyBytes(r, off)
    [] OTHER -> {0}

RECURSIVE HasTag(_, _)
HasTag(r, t) == \/ r[1] = t
                \/ r[1] \in {"Option", "List"} /\ HasTag(r[2], t)
                \/ r[1] = "Tuple" /\ \E i \in 1..Len(r[2]) : HasTag(r[2][i], t)
MaxLen == IF HasTag(rule, "String") THEN MaxStr ELSE IF HasTag(rule, "List") THEN MaxLst ELSE MaxAny

Init == \E r \in Catalogue : rule = r /\ LInit(r, << >>, FALSE) /\ phase = 1 /\ want = << >> /\ rb = << >>

Starved == Running /\ todo # << >> /\ Avail < LNeed(Top) /\ ~closed
Stay == UNCHANGED << rule, phase, want, rb, path >>
EnvByte == /\ Starved /\ Len(inp) < MaxLen
           /\ \E b \in Alpha(Top, Avail) : inp' = Append(inp, b)
           /\ UNCHANGED << todo, closed, pos, toks, st >> /\ Stay
EnvEof  == /\ Starved /\ closed' = TRUE
           /\ UNCHANGED << todo, inp, pos, toks, st >> /\ Stay
EnvEnd  == /\ st # "run" /\ ~closed /\ phase = 1 /\ closed' = TRUE
           /\ inp' \in (IF st = "ok" THEN { inp, Append(inp, 7) } ELSE { inp })
           /\ UNCHANGED << todo, pos, toks, st >> /\ Stay
Done1   == phase = 1 /\ st # "run" /\ closed
ReRead  == /\ Done1 /\ st = "ok" /\ phase' = 2 /\ want' = toks /\ rb' = SubSeq(inp, 1, pos)
           /\ todo' = << rule >> /\ inp' = Enc(toks) /\ closed' = TRUE /\ pos' = 0
           /\ toks' = << >> /\ st' = "run" /\ rule' = rule /\ path' = NoPath
Next == \/ (LReader /\ UNCHANGED << rule, phase, want, rb >>) \/ EnvByte \/ EnvEof \/ EnvEnd \/ ReRead
Spec == Init /\ [][Next]_vars

RoundTrip == (phase = 2 /\ st # "run") => (st = "ok" /\ toks = want /\ pos = Len(inp))
Shortest  == (phase = 2) => Len(inp) <= Len(rb)
(* re-encoding reproduces the bytes whenever no longer form was used *)
Identity  == (phase = 2 /\ Len(inp) = Len(rb)) => inp = rb
Bounded   == pos <= Len(inp)

OutFile == IOEnv.OUT
Case == [rule |-> rule, in |-> inp, st |-> st, n |-> pos, toks |-> toks,
         re |-> IF st = "ok" THEN Enc(toks) ELSE << >>]
Export == Done1 => CSVWrite("%1$s", << ToJson(Case) >>, OutFile)
=============================================================================

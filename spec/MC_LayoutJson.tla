---------------------------- MODULE MC_LayoutJson ----------------------------
(* Layout documents: starting from a well formed witness of every kind of    *)
(* rule, documents are wrapped in containers and damaged at most MaxDamage   *)
(* times; every document reached is a conformance case for the parser.       *)
EXTENDS LayoutJson, TLC, Json, CSV, IOUtils
CONSTANTS MaxWrap, MaxDamage
VARIABLES doc, top, wraps, damage
vars == << doc, top, wraps, damage >>

R(c)       == A(<< S(c) >>)
R1(c, x)   == A(<< S(c), x >>)
R2(c, x, y) == A(<< S(c), x, y >>)
Bo == R("Bool")
Fld(n, r)  == O(<< << "field_name", S(n) >>, << "field_rule", r >> >>)
Smd(n, i, a) == O(<< << "ctor_name", S(n) >>, << "index", N(i) >>, << "ctor_args", A(a) >> >>)
Tgd(n, h, a) == O(<< << "polyvar_name", S(n) >>, << "hash", N(h) >>, << "polyvar_args", A(a) >> >>)
Rsv(p, r)  == R1("Reference", R1("Resolved", O(<< << "source_type_decl", S("t") >>, << "source_module_path", S(p) >>,
                                                  << "bin_io_derived", B(TRUE) >>, << "ref_rule", r >> >>)))
Witness ==
  { R(c) : c \in Nullary }
  \cup { R1("Option", Bo), R1("List", R("Int")), R1("Tuple", A(<< >>)), R1("Tuple", A(<< Bo, R("Char") >>)),
         R1("Record", A(<< >>)), R1("Record", A(<< Fld("a", Bo), Fld("b", R("Unit")) >>)),
         R1("Sum", A(<< Smd("X", 0, << >>), Smd("Y", 1, << Bo >>) >>)),
         R1("Polyvar", A(<< R1("Tagged", Tgd("P", 80, << Bo >>)), R1("Inherited", Bo) >>)),
         R1("Hashtable", O(<< << "key_rule", Bo >>, << "value_rule", R("Int") >> >>)),
         Rsv("A.B", Bo), R1("Reference", R1("Unresolved", O(<< << "params", A(<< Bo >>) >>, << "layout_id", S("id") >> >>))),
         R1("Type_var", S("a")), R1("Self_reference", A(<< Bo >>)), R1("Custom", A(<< >>)), R1("Custom", A(<< Bo >>)),
         R2("Vec", N(3), Bo), R2("Type_abstraction", A(<< S("a"), S("b") >>), Bo),
         R2("Type_closure", A(<< A(<< S("a"), Bo >>) >>), R("Int")),
         R("Nope"), R("CustomForPath"), R2("CustomForPath", S("x"), A(<< >>)), R("NativeInt"), R("bool"),
         R1("TypeVar", S("a")) }
Wrap(d) == { R1("Option", d), R1("List", d), R1("Tuple", A(<< Bo, d >>)), R1("Record", A(<< Fld("a", d), Fld("b", Bo) >>)),
             R1("Sum", A(<< Smd("X", 0, << d, Bo >>) >>)), R1("Polyvar", A(<< R1("Tagged", Tgd("P", 80, << d >>)) >>)),
             R1("Polyvar", A(<< R1("Inherited", d) >>)),
             R1("Hashtable", O(<< << "key_rule", d >>, << "value_rule", Bo >> >>)),
             R1("Hashtable", O(<< << "key_rule", Bo >>, << "value_rule", d >> >>)),
             Rsv("M", d), R1("Reference", R1("Unresolved", O(<< << "params", A(<< d >>) >>, << "layout_id", S("i") >> >>))),
             R1("Custom", A(<< d >>)), R1("Self_reference", A(<< d >>)), R2("Vec", N(2), d),
             R2("Type_abstraction", A(<< S("a") >>), d), R2("Type_closure", A(<< A(<< S("a"), d >>) >>), Bo),
             R2("Type_closure", A(<< A(<< S("a"), Bo >>) >>), d) }
Junk == { S("Bool"), N(1), N(-1), B(TRUE), Null, Frac, A(<< >>), O(<< >>), Bo, R("Nope"), A(<< Bo >>) }

Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* all documents that differ from d by one damage anywhere inside *)
RECURSIVE Damaged(_)
Damaged(d) ==
  Junk \cup
  (CASE d.t = "arr" ->
          { A(Remove(d.e, i)) : i \in 1..Len(d.e) } \cup { A(Append(d.e, Bo)), A(Append(d.e, S("x"))) }
          \cup UNION { { A([d.e EXCEPT ![i] = x]) : x \in Damaged(d.e[i]) } : i \in 1..Len(d.e) }
     [] d.t = "obj" ->
          { O(Remove(d.o, i)) : i \in 1..Len(d.o) }
          \cup { O(Append(d.o, << "unknown_key", Bo >>)) }
          \cup { O([d.o EXCEPT ![i] = << "other_name", @[2] >>]) : i \in 1..Len(d.o) }
          \cup UNION { { O([d.o EXCEPT ![i] = << @[1], x >>]) : x \in Damaged(d.o[i][2]) } : i \in 1..Len(d.o) }
     [] OTHER -> {})

File(d) == { O(<< << "layout_loc", S("l") >>, << "version_opt", v >>, << "type_decl", S("t") >>,
                  << "bin_io_derived", B(TRUE) >>, << "bin_prot_rule", d >> >>) : v \in { Null, N(1) } }
Init == doc \in Witness /\ top = "rule" /\ wraps = 0 /\ damage = 0
DoWrap == top = "rule" /\ wraps < MaxWrap /\ damage = 0 /\ doc' \in Wrap(doc) /\ wraps' = wraps + 1 /\ UNCHANGED << top, damage >>
DoFile == top = "rule" /\ wraps = 0 /\ damage = 0 /\ doc' \in File(doc) /\ top' = "layout" /\ UNCHANGED << wraps, damage >>
DoDamage == damage < MaxDamage /\ wraps <= 1 /\ doc' \in Damaged(doc) /\ damage' = damage + 1 /\ UNCHANGED << top, wraps >>
Next == DoWrap \/ DoFile \/ DoDamage
Spec == Init /\ [][Next]_vars

Undamaged(d) == damage = 0 /\ Verdict(top, d) = "yes"
(* wrapping neither repairs nor breaks a rule *)
WrapSound == [][DoWrap => Verdict("rule", doc') = Verdict("rule", doc)]_vars
FileSound == [][DoFile => Verdict("layout", doc') = Verdict("rule", doc)]_vars
V == Verdict(top, doc)
Case == [kind |-> top, doc |-> doc, want |-> V, image |-> IF V = "yes" THEN Image(top, doc) ELSE Null]
Export == CSVWrite("%1$s", << ToJson(Case) >>, IOEnv.OUT)
=============================================================================

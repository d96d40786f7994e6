----------------------------- MODULE LayoutJson -----------------------------
(***************************************************************************)
(* The JSON documents that describe layouts (written by OCaml's yojson):   *)
(* a variant is a list whose first element is the name of the constructor  *)
(* and whose other elements are its arguments.  Verdict(kind, j) says      *)
(* whether document j denotes something of that kind: "yes", "no", or      *)
(* "any" where the format leaves it open (a list in place of an object).   *)
(* Image(kind, j) is the normal form of what it denotes: the same tree     *)
(* with constructors as one-entry objects.                                 *)
(*                                                                         *)
(* JSON trees: [t |-> "str", x |-> s], [t |-> "num", i |-> n],             *)
(* [t |-> "bool", f |-> b], null, frac (a number that is not integral),    *)
(* [t |-> "arr", e |-> <<...>>], [t |-> "obj", o |-> << <<key, tree>> >>]. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

S(x) == [t |-> "str", x |-> x]
N(x) == [t |-> "num", i |-> x]
B(x) == [t |-> "bool", f |-> x]
Null == [t |-> "null"]
Frac == [t |-> "frac"]
A(e) == [t |-> "arr", e |-> e]
O(e) == [t |-> "obj", o |-> e]

Nullary == {"Nat0", "Unit", "Bool", "String", "Char", "Int", "Int32", "Int64", "Native_int",
            "Float", "Bigstring"}
(* constructor |-> kinds of its arguments *)
Unary == [Option |-> "rule", Record |-> "fields", Tuple |-> "rules", Sum |-> "summands",
          Polyvar |-> "polyvars", List |-> "rule", Hashtable |-> "hashtbl", Reference |-> "ref",
          Type_var |-> "string", Self_reference |-> "rules", Custom |-> "rules"]
Binary == [Vec |-> << "size", "rule" >>, Type_abstraction |-> << "strings", "rule" >>,
           Type_closure |-> << "bindings", "rule" >>]
RustName(c) == CASE c = "Native_int" -> "NativeInt" [] c = "Type_var" -> "TypeVar"
                 [] c = "Self_reference" -> "SelfReference"
                 [] c = "Type_abstraction" -> "TypeAbstraction"
                 [] c = "Type_closure" -> "TypeClosure" [] OTHER -> c

(* objects: key, kind, required, in the order of the normal form *)
Obj == [field    |-> << << "field_name", "string", TRUE >>, << "field_rule", "rule", TRUE >> >>,
        summand  |-> << << "ctor_name", "string", TRUE >>, << "index", "int", TRUE >>, << "ctor_args", "rules", TRUE >> >>,
        hashtbl  |-> << << "key_rule", "rule", TRUE >>, << "value_rule", "rule", TRUE >> >>,
        tagged   |-> << << "polyvar_name", "string", TRUE >>, << "hash", "nat", TRUE >>, << "polyvar_args", "rules", TRUE >> >>,
        unresolved |-> << << "params", "rules", TRUE >>, << "layout_id", "string", TRUE >> >>,
        resolved |-> << << "source_type_decl", "string", TRUE >>, << "source_module_path", "string", FALSE >>,
                        << "bin_io_derived", "boolean", FALSE >>, << "ref_rule", "rule", TRUE >> >>,
        layout   |-> << << "layout_loc", "string", TRUE >>, << "version_opt", "optint", FALSE >>,
                        << "type_decl", "string", TRUE >>, << "bin_io_derived", "boolean", TRUE >>,
                        << "bin_prot_rule", "rule", TRUE >> >>]
(* lists: kind of the elements *)
Lists == [rules |-> "rule", fields |-> "field", summands |-> "summand", polyvars |-> "polyvar",
          strings |-> "string", bindings |-> "binding"]
(* other two-element variants *)
Variants == [polyvar |-> [Tagged |-> "tagged", Inherited |-> "rule"],
             ref |-> [Resolved |-> "resolved", Unresolved |-> "unresolved"]]
Default(kind) == CASE kind = "string" -> S("") [] kind = "boolean" -> B(FALSE) [] OTHER -> Null

And(vs) == IF "no" \in vs THEN "no" ELSE IF "any" \in vs THEN "any" ELSE "yes"
YN(b) == IF b THEN "yes" ELSE "no"
Entries(j, key) == { i \in 1..Len(j.o) : j.o[i][1] = key }
Entry(j, key) == j.o[CHOOSE i \in Entries(j, key) : TRUE][2]

RECURSIVE Verdict(_, _)
Verdict(kind, j) ==
  CASE kind = "rule" ->
         (IF j.t # "arr" THEN "no"
          ELSE IF Len(j.e) = 0 THEN "no"
          ELSE IF j.e[1].t # "str" THEN "no"
          ELSE LET c == j.e[1].x IN
               CASE Len(j.e) = 1 -> YN(c \in Nullary)
                 [] Len(j.e) = 2 -> IF c \in DOMAIN Unary THEN Verdict(Unary[c], j.e[2]) ELSE "no"
                 [] Len(j.e) = 3 -> IF c \in DOMAIN Binary
                                    THEN And({ Verdict(Binary[c][1], j.e[2]), Verdict(Binary[c][2], j.e[3]) })
                                    ELSE "no"
                 [] OTHER -> "no")
    [] kind \in DOMAIN Variants ->
         (IF j.t # "arr" THEN "no"
          ELSE IF Len(j.e) # 2 THEN "no"
          ELSE IF j.e[1].t # "str" THEN "no"
          ELSE IF j.e[1].x \in DOMAIN Variants[kind] THEN Verdict(Variants[kind][j.e[1].x], j.e[2]) ELSE "no")
    [] kind \in DOMAIN Lists ->
         IF j.t # "arr" THEN "no" ELSE And({ Verdict(Lists[kind], j.e[i]) : i \in 1..Len(j.e) })
    [] kind = "binding" ->
         IF j.t = "arr" THEN (IF Len(j.e) = 2 THEN And({ Verdict("string", j.e[1]), Verdict("rule", j.e[2]) }) ELSE "no") ELSE "no"
    [] kind \in DOMAIN Obj ->
         (IF j.t = "arr" THEN "any"
          ELSE IF j.t # "obj" THEN "no"
          ELSE And({ LET d == Obj[kind][i] IN
                     IF Entries(j, d[1]) = {} THEN YN(~d[3]) ELSE Verdict(d[2], Entry(j, d[1]))
                     : i \in 1..Len(Obj[kind]) }))
    [] kind = "string"  -> YN(j.t = "str")
    [] kind = "boolean" -> YN(j.t = "bool")
    [] kind = "int"     -> YN(j.t = "num")
    [] kind \in {"nat", "size"} -> YN(j.t = "num" /\ (j.t = "num" => j.i >= 0))
    [] kind = "optint"  -> YN(j.t \in {"num", "null"})

RECURSIVE Image(_, _)
Image(kind, j) ==
  CASE kind = "rule" ->
         LET c == j.e[1].x IN
         CASE Len(j.e) = 1 -> S(RustName(c))
           [] Len(j.e) = 2 -> O(<< << RustName(c), Image(Unary[c], j.e[2]) >> >>)
           [] OTHER -> O(<< << RustName(c), A(<< Image(Binary[c][1], j.e[2]), Image(Binary[c][2], j.e[3]) >>) >> >>)
    [] kind \in DOMAIN Variants -> O(<< << j.e[1].x, Image(Variants[kind][j.e[1].x], j.e[2]) >> >>)
    [] kind \in DOMAIN Lists -> A([i \in 1..Len(j.e) |-> Image(Lists[kind], j.e[i])])
    [] kind = "binding" -> A(<< j.e[1], Image("rule", j.e[2]) >>)
    [] kind \in DOMAIN Obj ->
         O([i \in 1..Len(Obj[kind]) |->
              LET d == Obj[kind][i] IN
              << d[1], IF Entries(j, d[1]) = {} THEN Default(d[2]) ELSE Image(d[2], Entry(j, d[1])) >>])
    [] OTHER -> j
=============================================================================

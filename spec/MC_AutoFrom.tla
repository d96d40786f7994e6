---------------------------- MODULE MC_AutoFrom ----------------------------
(* The AutoFrom derive.  A source type (struct with named or positional      *)
(* fields, or enum) and its targets have the same field names and variant    *)
(* names; target 2 declares them in the opposite order.  Each field is plain *)
(* or wrapped in Vec, Option or Box (also by qualified path), or is itself a *)
(* type with derived conversions ("nest").  Converting must carry every      *)
(* field to the field of the same name, element by element, wrapping with    *)
(* the declared versions (outermost first) if the target is versioned, and   *)
(* converting back must give the original.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxFields, MaxVariants
VARIABLES shape, cur, orig, phase, target, vers
vars == << shape, cur, orig, phase, target, vers >>

Wrappers == {"plain", "vec", "opt", "box", "nest", "qvec"}
Core == {"plain", "vec", "opt", "box"}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
FieldLists == UNION { [1..n -> Wrappers] : n \in 1..MaxFields }
              \cup { s \in [1..4 -> Core] : Distinct(s) }
              \cup { << "plain", "plain", "plain", "plain", "plain" >>, [i \in 1..12 |-> "plain"],
                     << "plain", "vec", "plain", "opt", "box", "plain", "nest", "vec", "plain" >> }
              \cup { << "plain", "plain", "plain" >>, << "vec", "plain", "vec" >>, << "opt", "opt", "plain" >>, << "box", "box", "box" >> }
VariantPool == { [n |-> "U0", k |-> "unit", f |-> << >>], [n |-> "T1", k |-> "tuple", f |-> << "plain" >>],
                 [n |-> "T2", k |-> "tuple", f |-> << "plain", "plain" >>], [n |-> "T3", k |-> "tuple", f |-> << "vec", "opt", "box" >>],
                 [n |-> "S1", k |-> "struct", f |-> << "plain" >>], [n |-> "S2", k |-> "struct", f |-> << "box", "plain", "plain" >>],
                 [n |-> "S3", k |-> "struct", f |-> << "opt", "vec", "nest" >>], [n |-> "T4", k |-> "tuple", f |-> << "nest", "vec" >>] }
(* wide enums: variants of many fields of one type, and many variants *)
Wide == << [n |-> "W0", k |-> "unit", f |-> << >>], [n |-> "W5", k |-> "tuple", f |-> [i \in 1..5 |-> "plain"]],
           [n |-> "W11", k |-> "tuple", f |-> [i \in 1..11 |-> "plain"]], [n |-> "W1", k |-> "unit", f |-> << >>],
           [n |-> "X6", k |-> "struct", f |-> [i \in 1..6 |-> "plain"]], [n |-> "V4", k |-> "tuple", f |-> [i \in 1..4 |-> "vec"]],
           [n |-> "O4", k |-> "struct", f |-> << "opt", "plain", "opt", "plain", "box" >>], [n |-> "W2", k |-> "unit", f |-> << >>],
           [n |-> "W3", k |-> "unit", f |-> << >>], [n |-> "N3", k |-> "tuple", f |-> << "nest", "plain", "nest" >>] >>
VariantLists == { Wide } \cup { s \in UNION { [1..n -> VariantPool] : n \in 1..MaxVariants } : Distinct(s) }
(* how many targets the type declares *)
Targets(fs) == IF Len(fs) = 1 THEN 5 ELSE 2
Struct(k, fs) == [k |-> k, nt |-> Targets(fs), v |-> << [n |-> "", k |-> k, f |-> fs] >>]
Shapes == { Struct("named", fs) : fs \in FieldLists } \cup { Struct("unnamed", fs) : fs \in FieldLists }
          \cup { [k |-> "enum", nt |-> Targets(vs), v |-> vs] : vs \in VariantLists }

(* contents of field i: the numbers are all different *)
Contents(w, i) == LET b == 10 * i IN
  CASE w \in {"vec", "qvec"} -> { << >>, << b + 2, b + 1, b + 3 >> }
    [] w = "opt" -> { << >>, << b >> }
    [] w = "nest" -> { << b, b + 1 >> }
    [] OTHER -> { << b >> }
FieldName(v, i) == IF v.k \in {"named", "struct"} THEN "f" \o ToString(i) ELSE ToString(i - 1)
(* a value: variant name and the set of (field name, contents) *)
Rich(v) == [i \in 1..Len(v.f) |-> CHOOSE c \in Contents(v.f[i], i) : \A d \in Contents(v.f[i], i) : Len(c) >= Len(d)]
Poor(v) == [i \in 1..Len(v.f) |-> CHOOSE c \in Contents(v.f[i], i) : \A d \in Contents(v.f[i], i) : Len(c) <= Len(d)]
Long(v) == [i \in 1..Len(v.f) |-> IF v.f[i] \in {"vec", "qvec"} THEN [j \in 1..300 |-> 1000 * i + j] ELSE Rich(v)[i]]
ValuesOf(v) == { [variant |-> v.n, fields |-> [i \in 1..Len(v.f) |-> << FieldName(v, i), g[i] >>]] : g \in ({ Rich(v), Poor(v) } \cup (IF Len(v.f) \in {1, 3} THEN { Long(v) } ELSE {})) }

Init == /\ shape \in Shapes /\ \E i \in 1..Len(shape.v) : orig \in ValuesOf(shape.v[i])
        /\ cur = orig /\ phase = "source" /\ target = 0 /\ vers = << >>
Levels == { << >>, << 1 >>, << 2, 1 >>, << 3, 2, 1 >>, << 400, 3, 2, 1 >> }
Convert == /\ phase = "source" /\ phase' = "target" /\ target' \in 1..shape.nt /\ vers' \in Levels /\ UNCHANGED << shape, cur, orig >>
Back == /\ phase = "target" /\ phase' = "back" /\ vers' = << >> /\ UNCHANGED << shape, cur, orig, target >>
Next == Convert \/ Back
Spec == Init /\ [][Next]_vars
Lossless == cur = orig
Case == [shape |-> shape, value |-> orig, target |-> target, vers |-> vers, want |-> cur]
Export == phase = "target" => CSVWrite("%1$s", << ToJson(Case) >>, IOEnv.OUT)
=============================================================================

------------------------------- MODULE MC_Poly -------------------------------
(* Polymorphic variants: for every sequence of up to MaxV distinct labels of *)
(* a pool (as the variants of a type, in that order) and every tag of        *)
(* interest on the wire, which variant is selected, what follows it, and     *)
(* what is written for each variant.  Labels are at most 4 ASCII characters  *)
(* (their hashes fit 31 bits), plus one non-ASCII name that can only shift   *)
(* the position of the others.                                               *)
EXTENDS BinProt, Json, CSV, IOUtils
CONSTANTS MaxV
VARIABLES ty, tag
vars == << rvars, ty, tag >>

Pool == { << >>, << 65 >>, << 66 >>, << 97 >>, << 65, 66 >>, << 66, 65 >>, << 79, 110, 101 >>,
          << 84, 119, 111 >>, << 78, 111, 110, 101 >>, << 122, 122, 122, 122 >>, << 126, 126, 126, 126 >>,
          << 195, 169 >> }
B == [k |-> "bool", a |-> << >>, v |-> << >>]
Shape(i) == CASE i % 3 = 1 -> "unit" [] i % 3 = 2 -> "newtype" [] OTHER -> "struct"
Args(i)  == CASE i % 3 = 1 -> << >> [] i % 3 = 2 -> << B >> [] OTHER -> << B, B >>
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
LabelSeqs == { s \in UNION { [1..n -> Pool] : n \in 1..MaxV } : Distinct(s) }
TypeOf(s) == [k |-> "poly", a |-> << >>,
              v |-> [i \in 1..Len(s) |-> [s |-> Shape(i), n |-> s[i], a |-> Args(i)]]]
(* the tag of every pool label, and its neighbours *)
Inc(w) == IF w[1] >= 254 THEN << w[1] - 254, (w[2] + 1) % 256, w[3], w[4] >> ELSE << w[1] + 2, w[2], w[3], w[4] >>
Tags == { TagWire(Hash(l)) : l \in Pool } \cup { Inc(TagWire(Hash(l))) : l \in Pool } \cup { << 255, 255, 255, 255 >> }

Init == /\ \E s \in LabelSeqs, t \in Tags : ty = TypeOf(s) /\ tag = t /\ RInit(TypeOf(s), t \o << 1, 0, 1 >>, TRUE)
Next == Reader /\ UNCHANGED << ty, tag >>
Spec == Init /\ [][Next]_vars

Done == st # "run"
(* properties of the design *)
Selected == { i \in 1..Len(ty.v) : Ascii(ty.v[i].n) /\ TagWire(Hash(ty.v[i].n)) = tag }
AtMostOne == Cardinality(Selected) <= 1          \* pool labels do not collide
Exact == Done => (IF Selected = {} THEN st = "UnknownPolyvarTag"
                  ELSE LET i == CHOOSE i \in Selected : TRUE
                       IN st = "ok" /\ pos = 4 + Len(ty.v[i].a) /\ toks[1] = Tok("poly", ty.v[i].n))
WireBack == \A l \in Pool : TagOfWire(TagWire(Hash(l))) = Hash(l) /\ TagOdd(TagWire(Hash(l)))
Inverse == (Done /\ st = "ok") => Enc(toks) = SubSeq(inp, 1, pos)

Case == [ty |-> ty, in |-> inp, st |-> st, n |-> pos, toks |-> toks, strict |-> Strict,
         pool |-> { [l |-> l, h |-> Hash(l)] : l \in { ty.v[i].n : i \in 1..Len(ty.v) } }]
Export == Done => CSVWrite("%1$s", << ToJson(Case) >>, IOEnv.OUT)
=============================================================================

------------------------------ MODULE MC_Index ------------------------------
(* Navigation of loosely typed values.  A value is a tree; a path of numeric *)
(* and string steps selects at most one subtree.                             *)
(*   number k : the k-th element of a list or tuple, or of the list or tuple *)
(*              directly inside a sum                                        *)
(*   string s : the first field named s of a record, or of the record        *)
(*              directly inside a sum                                        *)
(* Each value of the catalogue is walked exhaustively.                       *)
EXTENDS Wire, TLC, Json, CSV, IOUtils

CONSTANT Depth

VARIABLES root, cur, path, dead
vars == << root, cur, path, dead >>

N(t, b, s, kids) == [t |-> t, b |-> b, s |-> s, kids |-> kids]
I(n)   == N("int", << n, 0, 0, 0, 0, 0, 0, 0 >>, "", << >>)
Unit   == N("unit", << >>, "", << >>)
Bool   == N("bool", << 1 >>, "", << >>)
Chr(c) == N("char", << c >>, "", << >>)
Nt(n) == N("nat0", << n, 0, 0, 0, 0, 0, 0, 0 >>, "", << >>)
Str    == N("string", << 97, 98 >>, "", << >>)
NoneV  == N("none", << >>, "", << >>)
Some(x)   == N("some", << >>, "", << x >>)
List(xs)  == N("list", FromNat(Len(xs)), "", xs)
Tup(xs)   == N("tup", << Len(xs) >>, "", xs)
Fld(n, x) == N("field", << >>, n, << x >>)
Rec(fs)   == N("rec", << Len(fs) >>, "", fs)
Sum(i, n, x)  == N("sum", << i >>, n, << x >>)
Poly(h, n, x) == N("pv", h, n, << x >>)

Leaves == { I(1), Unit, Bool, Chr(200), Nt(3), Str, NoneV }
Mid == { List(<< I(1), I(2), I(3) >>), List(<< >>), Tup(<< I(4), Bool >>), Tup(<< >>),
         Rec(<< Fld("one", I(5)), Fld("two", I(6)) >>), Rec(<< Fld("one", I(7)), Fld("one", I(8)) >>),
         Rec(<< >>), Rec(<< Fld("", I(9)), Fld("two", Unit) >>), Some(I(10)), Some(List(<< I(11) >>)) }
Wrap(v) == { Sum(0, "one", v), Poly(<< 70, 82, 60, 0 >>, "two", v), Some(v), List(<< v, I(12) >>), Tup(<< I(13), v >>),
             Rec(<< Fld("two", v), Fld("one", I(14)) >>) }
L1 == Leaves \cup Mid
L2 == UNION { Wrap(v) : v \in L1 }
L3 == UNION { Wrap(v) : v \in UNION { Wrap(w) : w \in Mid } }
Values == IF Depth = 2 THEN L1 \cup L2 ELSE L1 \cup L2 \cup L3

Nums == 0..3
Names == {"one", "two", "three", ""}

Seqish(v) == v.t \in {"list", "tup"}
ByNum(v, k) == IF Seqish(v) THEN (IF k < Len(v.kids) THEN << v.kids[k + 1] >> ELSE << >>)
               ELSE IF v.t = "sum" /\ Seqish(v.kids[1])
                    THEN (IF k < Len(v.kids[1].kids) THEN << v.kids[1].kids[k + 1] >> ELSE << >>)
               ELSE << >>
Field(v, n) == LET hit == { i \in 1..Len(v.kids) : v.kids[i].s = n } IN
               IF hit = {} THEN << >>
               ELSE << v.kids[CHOOSE i \in hit : \A j \in hit : i <= j].kids[1] >>
ByName(v, n) == IF v.t = "rec" THEN Field(v, n)
                ELSE IF v.t = "sum" /\ v.kids[1].t = "rec" THEN Field(v.kids[1], n)
                ELSE << >>

Init == root \in Values /\ cur = root /\ path = << >> /\ dead = FALSE
Live == ~dead /\ Len(path) < 3
Go(r, step) == /\ path' = Append(path, step) /\ root' = root
               /\ IF r = << >> THEN dead' = TRUE /\ cur' = cur ELSE dead' = FALSE /\ cur' = r[1]
(* revealing an option: present for Some, absent for None, an error for any other kind *)
Inner(v) == IF v.t = "some" THEN << v.kids[1] >> ELSE << >>
StepInner == Live /\ cur.t \in {"some", "none", "int", "list", "sum"} /\ Go(Inner(cur), [num |-> FALSE, k |-> -1, s |-> cur.t])
StepNum  == Live /\ \E k \in Nums : Go(ByNum(cur, k), [num |-> TRUE, k |-> k, s |-> ""])
StepName == Live /\ \E n \in Names : Go(ByName(cur, n), [num |-> FALSE, k |-> 0, s |-> n])
Next == StepNum \/ StepName \/ StepInner
Spec == Init /\ [][Next]_vars

RECURSIVE Flat(_), FlatAll(_, _)
Flat(v) == << [t |-> v.t, b |-> v.b, s |-> v.s] >> \o FlatAll(v.kids, 1)
FlatAll(vs, i) == IF i > Len(vs) THEN << >> ELSE Flat(vs[i]) \o FlatAll(vs, i + 1)

(* a selected value is a part of the root: its tokens occur contiguously in it *)
Part(a, b) == \E o \in 0..(Len(b) - Len(a)) : \A i \in 1..Len(a) : a[i] = b[o + i]
SubTree == ~dead => Part(Flat(cur), Flat(root))
Export == path # << >> =>
  CSVWrite("%1$s", << ToJson([toks |-> Flat(root), path |-> path, found |-> ~dead,
                              want |-> IF dead THEN << >> ELSE Flat(cur)]) >>, IOEnv.OUT)
=============================================================================

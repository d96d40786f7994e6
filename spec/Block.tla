-------------------------------- MODULE Block --------------------------------
(* A block as it moves between its four representations: the bytes of the    *)
(* wire, the typed value read from them, the block the rest of the node works*)
(* on, and JSON.  A document is taken apart into leaves; each has a kind and *)
(* holds a value of some class.  A document is plain but for a few odd       *)
(* leaves, which say whether a representation can take it up.                *)
EXTENDS Naturals, Sequences, FiniteSets
Reps == {"wire", "typed", "block", "json"}
Edges == { << "wire", "typed" >>, << "wire", "block" >>, << "typed", "wire" >>, << "typed", "block" >>, << "typed", "json" >>,
           << "block", "typed" >>, << "block", "wire" >>, << "block", "json" >>, << "json", "typed" >>, << "json", "block" >> }
(* the values of each kind of leaf: those every representation holds, and the rest *)
Plain == [version |-> {"one"},                                                      \* the only version this code knows of
          proto |-> {},                                                             \* a part of a protocol version
          u32 |-> {"zero", "one", "b127", "b128", "b15", "b16", "b31"},               \* the largest numbers below a power of two, or it
          until |-> {"zero", "one", "b31", "all"},
          u64 |-> {"zero", "one", "b128", "b31", "b32", "b53", "b63"},
          nano |-> {"zero", "one", "b128", "b31", "b32", "b53", "b63", "round"},
          i64 |-> {"zero", "one", "b128", "b31", "b32", "b53", "b63", "minus", "least"},
          bool |-> {"no", "yes"}, unit |-> {"unit"}, vector |-> {"unit"},
          char |-> {"low", "letter", "quote", "b127"},
          digest |-> {"empty", "ascii", "quote", "utf8"},
          memo |-> {"empty", "short", "b32", "long", "broken"}, aux |-> {"empty", "short", "b32", "long", "broken"},
          pcaux |-> {"empty", "short", "b32", "long", "broken"}, vrf |-> {"empty", "short", "b32", "long", "broken"},
          hash |-> {"zero", "one", "any", "ones"}, field |-> {"zero", "one", "any", "ones"},
          key |-> {"real"}, signature |-> {"zero", "any"},
          option |-> {"none", "some"}, list |-> {"none", "few"}, sum |-> {"known"}, polyvar |-> {"known"}]
Odd == [version |-> {"other", "zero", "minus"}, proto |-> {"zero", "one", "two"},
        u32 |-> {"b32", "over", "minus", "least"}, until |-> {"minus", "over"}, u64 |-> {"minus", "least"}, nano |-> {"minus"}, i64 |-> {},
        bool |-> {"two"}, unit |-> {"one"}, vector |-> {"one"}, char |-> {"b128", "b255"}, digest |-> {"broken"},
        memo |-> {"cut"}, aux |-> {"cut"}, pcaux |-> {"cut"}, vrf |-> {"cut"}, hash |-> {}, field |-> {},
        key |-> {"zero", "any", "over"}, signature |-> {"over"},
        option |-> {"two"}, list |-> {"endless"}, sum |-> {"unknown", "unsupported"}, polyvar |-> {"unknown"}]
Kinds == DOMAIN Plain
Leaves == UNION { { [kind |-> k, class |-> c] : c \in Plain[k] \cup Odd[k] } : k \in Kinds }
(* not a document of the layout at all *)
Malformed(l) == \/ l.class \in {"two", "one"} /\ l.kind \in {"bool", "unit", "vector", "option"} /\ l.class \in Odd[l.kind]
                \/ l.class \in {"unknown", "cut", "endless"}
(* what becomes of a leaf on the way from one representation to another:     *)
(*   keep    it arrives as it was                                            *)
(*   may     the move is refused or it arrives as it was                     *)
(*   refuse  the move is refused                                             *)
(*   reset   the representation has no place for it: it will be the default  *)
(* nothing ever arrives as something else                                    *)
Way(l, from, to) ==
  CASE l.class \in Plain[l.kind] -> "keep"
    [] from = "wire" /\ Malformed(l) -> "refuse"
    [] from = "wire" /\ l.kind \notin {"proto", "key", "signature", "char", "digest"} -> "may"
    (* the block and JSON have no version tags: a document of a version not known cannot be taken up *)
    [] l.kind = "version" /\ to \in {"block", "json"} -> "refuse"
    (* JSON is unicode; what is not is either refused or written in some way that reads back *)
    [] l.kind \in {"char", "digest"} /\ to = "json" -> "may"
    (* the block holds elements of the field, JSON points of the curve *)
    [] l.kind \in {"key", "signature"} /\ l.class = "over" /\ to = "block" -> "refuse"
    [] l.kind = "key" /\ l.class = "over" /\ to = "json" -> "refuse"
    [] l.kind = "signature" /\ l.class = "over" /\ (to = "json" \/ from = "json") -> "may"
    [] l.kind = "key" /\ (to = "json" \/ from = "json") -> "may"
    [] l.kind = "proto" /\ to = "json" -> "reset"
    [] OTHER -> "keep"
(* reading the wire into the block is reading it into a typed value and making that a block *)
Steps(from, to) == IF << from, to >> = << "wire", "block" >> THEN << << "wire", "typed" >>, << "typed", "block" >> >>
                   ELSE IF << from, to >> = << "block", "json" >> THEN << << "block", "typed" >>, << "typed", "json" >> >>
                   ELSE IF << from, to >> = << "json", "block" >> THEN << << "json", "typed" >>, << "typed", "block" >> >>
                   ELSE IF << from, to >> = << "block", "wire" >> THEN << << "block", "typed" >>, << "typed", "wire" >> >>
                   ELSE << << from, to >> >>
Ways(ls, from, to) == { Way(l, s[1], s[2]) : l \in ls, s \in { Steps(from, to)[i] : i \in DOMAIN Steps(from, to) } }
Verdict(ls, from, to) == LET w == Ways(ls, from, to) IN
  IF "refuse" \in w THEN "refuse" ELSE IF "may" \in w THEN "may" ELSE "ok"
Resets(ls, from, to) == { l \in ls : "reset" \in Ways({l}, from, to) }
=============================================================================

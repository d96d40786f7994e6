---------------------------- MODULE MC_BlockJson ----------------------------
(* What reading a block from JSON makes of a document with one place of it   *)
(* changed.  The document goes through: read, written, read again, written   *)
(* again; it is refused at the first reading or comes to rest: what is       *)
(* written then is what will be written ever after.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
(* what a place holds; optional is a place that may also hold null; hex is   *)
(* the text of a field element, coded a text that ends in its own checksum   *)
Kinds == {"text", "hex", "coded", "number", "bool", "null", "record", "list", "tuple", "enum"}
Holders == {"field", "item", "part", "argument", "root"}      \* of a record, list, tuple or enum
(* bare: a record of which every field may be null *)
Places == { p \in [kind : Kinds, optional : BOOLEAN, bare : BOOLEAN, held : Holders] : p.bare => p.kind = "record" }
(* a value put in place of what was there *)
Values == {"null", "true", "zero", "minus", "fraction", "huge", "empty", "word", "emptylist", "nulls", "emptyrecord", "foreign", "deep"}
Shape(v) == CASE v = "null" -> "null" [] v = "true" -> "bool" [] v \in {"zero", "minus", "fraction", "huge"} -> "number"
              [] v \in {"empty", "word"} -> "text" [] v \in {"emptylist", "nulls", "deep"} -> "list" [] OTHER -> "record"
(* the place taken away, there twice, or with something added to what it     *)
(* holds; a text with two characters less or more; the place in a list of    *)
(* its own; an enum as the text of its name, as a record from its name to    *)
(* its arguments, as its arguments alone, or with the name at the end        *)
Changes == Values \cup {"gone", "twice", "more", "short", "long", "nested", "nameonly", "named", "unwrapped", "reversed"}
Texts == {"text", "hex", "coded"}
Put(p, v) ==
  IF Shape(v) = "null" /\ p.optional THEN "ok"
  ELSE IF p.kind = "null" THEN IF Shape(v) = "null" THEN "ok" ELSE "refuse"
  ELSE IF p.kind \in Texts \cup {"number"} THEN IF Shape(v) \in {"text", "number"} THEN "may" ELSE "refuse"
  ELSE IF p.kind = "list" THEN IF v = "emptylist" THEN "ok" ELSE "refuse"
  ELSE IF p.kind = "bool" THEN IF v = "true" THEN "ok" ELSE "refuse"
  ELSE IF p.bare /\ Shape(v) = "record" THEN "may"
  ELSE "refuse"                                                \* none of the values makes a record, tuple or enum
Verdict(p, c) ==
  CASE c = "gone" -> IF p.held = "item" THEN "ok" ELSE IF p.held = "field" /\ (p.optional \/ p.kind = "null") THEN "may" ELSE "refuse"
    [] c = "twice" -> IF p.held = "item" THEN "ok" ELSE IF p.held = "field" THEN "may" ELSE "refuse"
    [] c = "more" -> IF p.kind = "record" THEN "may" ELSE "refuse"      \* a field or argument nobody knows; nothing may be dropped from a tuple
    [] c \in {"short", "long"} -> IF p.kind = "text" THEN "may" ELSE "refuse"
    [] c \in {"nested", "nameonly", "named", "unwrapped", "reversed"} -> "refuse"
    [] OTHER -> Put(p, c)
Possible(p, c) == /\ c = "more" => p.kind \in {"record", "tuple", "enum"}
                  /\ c \in {"gone", "twice"} => p.held # "root"
                  /\ c \in {"short", "long"} => p.kind \in Texts
                  /\ c \in {"nameonly", "named", "unwrapped", "reversed"} => p.kind = "enum"
                  /\ c = "nested" => p.kind # "list" 
VARIABLES at, place, change, log
vars == << at, place, change, log >>
Init == /\ place \in Places /\ change \in Changes /\ Possible(place, change) /\ at = "text" /\ log = << >>
Read == /\ at \in {"text", "form"} /\ Len(log) < 4
        /\ LET v == IF at = "form" THEN "ok" ELSE Verdict(place, change) IN
           \/ v # "ok" /\ at' = "refused" /\ log' = Append(log, "refused")
           \/ v # "refuse" /\ at' = "block" /\ log' = Append(log, "ok")
        /\ UNCHANGED << place, change >>
Write == at = "block" /\ Len(log) < 4 /\ at' = "form" /\ log' = Append(log, "ok") /\ UNCHANGED << place, change >>
Spec == Init /\ [][Read \/ Write]_vars
(* what was written by this code is never refused *)
OwnFormReads == \A i \in DOMAIN log : log[i] = "refused" => i = 1
WrongShapeRefused == (change \in Values /\ place.kind \in {"record", "tuple", "enum"} /\ ~(place.optional /\ change = "null") /\ ~place.bare) => at \in {"text", "refused"}
OneWayToWriteAnEnum == (place.kind = "enum" /\ change # "twice" /\ change # "gone" /\ ~(place.optional /\ change = "null")) => at \in {"text", "refused"}
NothingDropped == (change = "more" /\ place.kind \in {"tuple", "enum"}) => at \in {"text", "refused"}
Inv == OwnFormReads /\ WrongShapeRefused /\ NothingDropped /\ OneWayToWriteAnEnum
Export == log = << >> => CSVWrite("%1$s", << ToJson([place |-> place, change |-> change, verdict |-> Verdict(place, change)]) >>, IOEnv.OUT)
=============================================================================

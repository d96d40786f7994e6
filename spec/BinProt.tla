------------------------------ MODULE BinProt ------------------------------
(***************************************************************************)
(* The strongly typed bin_prot reader as a state machine.                  *)
(*                                                                         *)
(* A type is [k |-> kind, a |-> <<component types>>, v |-> <<variants>>],  *)
(* a variant [s |-> shape, n |-> <<label bytes>>, a |-> <<types>>].        *)
(* `todo` is the stack of types still to be read, `inp` the bytes the      *)
(* environment has supplied, `closed` says that no further byte will come  *)
(* (end of input, or the reader failed), `pos` the number of bytes         *)
(* consumed, `toks` the value read so far.                                 *)
(* Each action reads one primitive item; it mirrors one `deserialize_*`    *)
(* method of protocol/bin-prot/src/de.rs.                                  *)
(***************************************************************************)
EXTENDS Cursor

IntKinds == {"i8", "i16", "i32", "i64", "u16", "u32", "u64"}

Need(ty) == CASE ty.k \in {"unit", "ustruct", "bool", "char", "u8", "opt", "enum"} -> 1
              [] ty.k \in IntKinds -> IntNeed
              [] ty.k = "f32" -> 4
              [] ty.k = "f64" -> 8
              [] ty.k = "str" -> StrNeed
              [] ty.k = "seq" -> Nat0Need
              [] ty.k = "poly" -> 4
              [] OTHER -> 0     \* products consume nothing themselves

HasInput == Running /\ todo # << >> /\ Avail >= Need(Top)

-----------------------------------------------------------------------------
ReadUnit == /\ HasInput /\ Top.k \in {"unit", "ustruct"}
            /\ IF At(1) = 0 THEN Accept(1, << Tok("unit", << >>) >>, << >>)
                            ELSE Reject("InvalidByte")
ReadBool == /\ HasInput /\ Top.k = "bool"
            /\ IF At(1) \in {0, 1} THEN Accept(1, << Tok("bool", << At(1) >>) >>, << >>)
                                   ELSE Reject("InvalidByte")
ReadChar == /\ HasInput /\ Top.k = "char"
            /\ Accept(1, << Tok("char", << At(1) >>) >>, << >>)
ReadU8   == /\ HasInput /\ Top.k = "u8"
            /\ Accept(1, << Tok("u8", << At(1) >>) >>, << >>)
ReadInt  == /\ HasInput /\ Top.k \in IntKinds
            /\ IF BadLead(At(1), TRUE) THEN Reject("InvalidIntegerByte")
               ELSE IF InRange(IntAt, Top.k)
                    THEN Accept(IntNeed, << Tok("int", IntAt) >>, << >>)
                    ELSE Reject("DestinationIntegerOverflow")
ReadF32  == /\ HasInput /\ Top.k = "f32"
            /\ Accept(4, << Tok("f32", Slice(4)) >>, << >>)
ReadF64  == /\ HasInput /\ Top.k = "f64"
            /\ Accept(8, << Tok("f64", Slice(8)) >>, << >>)
ReadStr  == /\ HasInput /\ Top.k = "str"
            /\ IF BadLead(At(1), FALSE) THEN Reject("InvalidIntegerByte")
               ELSE LET b == SubSeq(inp, pos + Nat0Need + 1, pos + StrNeed)
                    IN IF ValidUtf8(b) THEN Accept(StrNeed, << Tok("str", b) >>, << >>)
                                       ELSE Reject("Io")
ReadOpt  == /\ HasInput /\ Top.k = "opt"
            /\ CASE At(1) = 0 -> Accept(1, << Tok("none", << >>) >>, << >>)
                 [] At(1) = 1 -> Accept(1, << Tok("some", << >>) >>, << Top.a[1] >>)
                 [] OTHER -> Reject("InvalidByte")
ReadSeq  == /\ HasInput /\ Top.k = "seq"
            /\ IF BadLead(At(1), FALSE) THEN Reject("InvalidIntegerByte")
               ELSE Accept(Nat0Need, << Tok("seq", Nat0At) >>,
                           << [k |-> "rep", n |-> ToNat(Nat0At), a |-> Top.a] >>)
Repeat   == /\ HasInput /\ Top.k = "rep"
            /\ IF Top.n = 0 THEN Accept(0, << >>, << >>)
               ELSE Accept(0, << >>, << Top.a[1], [Top EXCEPT !.n = @ - 1] >>)
Product  == /\ HasInput /\ Top.k \in {"newtype", "tuple", "tstruct", "struct"}
            /\ Accept(0, << >>, Top.a)
ReadEnum == /\ HasInput /\ Top.k = "enum"
            /\ IF At(1) < Len(Top.v)
               THEN Accept(1, << Tok("var", << At(1) >>) >>, Top.v[At(1) + 1].a)
               ELSE Reject("Custom")
(* the variant whose label hashes to the tag; the tag's low bit is always   *)
(* set in well formed data and its absence is left unspecified.  OCaml      *)
(* labels are ASCII: a variant with any other name is never selected.       *)
Ascii(l) == \A i \in 1..Len(l) : l[i] < 128
Labels(ty, tag) == { i \in 1..Len(ty.v) : Ascii(ty.v[i].n) /\ Hash(ty.v[i].n) = tag }
ReadPoly == /\ HasInput /\ Top.k = "poly"
            /\ LET hit == Labels(Top, TagOfWire(Slice(4))) IN
               IF ~TagOdd(Slice(4)) THEN Reject("any")
               ELSE IF hit = {} THEN Reject("UnknownPolyvarTag")
               ELSE LET i == CHOOSE i \in hit : \A j \in hit : i <= j
                    IN Accept(4, << Tok("poly", Top.v[i].n) >>, Top.v[i].a)

Finish == /\ Running /\ todo = << >>
          /\ st' = "ok" /\ UNCHANGED << todo, inp, closed, pos, toks >>

(* the input ends inside an item *)
Truncated == /\ Running /\ todo # << >> /\ Avail < Need(Top) /\ closed
             /\ Reject("Io")

Reader == \/ ReadUnit \/ ReadBool \/ ReadChar \/ ReadU8 \/ ReadInt \/ ReadF32 \/ ReadF64
          \/ ReadStr \/ ReadOpt \/ ReadSeq \/ Repeat \/ Product \/ ReadEnum \/ ReadPoly
          \/ Finish \/ Truncated

RInit(ty, bytes, eof) == /\ todo = << ty >> /\ inp = bytes /\ closed = eof
                         /\ pos = 0 /\ toks = << >> /\ st = "run"
=============================================================================

------------------------------ MODULE MC_Prim ------------------------------
(* The primitive readers and writers (ReadBinProtExt / WriteBinProtExt).     *)
(* Writers: every function is applied to every number of a boundary grid;    *)
(* the bytes written and the returned count are determined.  Readers: the    *)
(* environment supplies bytes on demand from boundary alphabets.  What a     *)
(* writer emitted is read back by the matching reader.                       *)
EXTENDS Cursor, Json, CSV, IOUtils

VARIABLES f, mode, x, out
vars == << rvars, f, mode, x, out >>

Ints == {"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"}
Nats == {"u8", "u16", "u32", "u64"}
IntF == { "integer:" \o k : k \in Ints }
NatF == { "nat0:" \o k : k \in Nats }
KindOf(fn) == CHOOSE k \in Ints : fn = "integer:" \o k \/ fn = "nat0:" \o k

Patterns == { [i \in 1..8 |-> IF i < n THEN lo ELSE IF i = n THEN b ELSE hi] :
              n \in 1..8, lo \in {0, 255}, b \in {0, 1, 2, 63, 64, 126, 127, 128, 129, 253, 254, 255}, hi \in {0, 255} }
Pad(w) == ExtendUnsigned(w)
Args(fn) ==
  CASE fn = "unit"    -> { Zero8 }
    [] fn = "bool"    -> { Pad(<< b >>) : b \in {0, 1} }
    [] fn = "char"    -> { Pad(<< b >>) : b \in 0..255 }
    [] fn = "variant" -> { Pad(<< b >>) : b \in 0..255 }
    [] fn \in IntF    -> { p \in Patterns : InRange(p, KindOf(fn)) }
    [] fn \in NatF    -> { p \in Patterns : InRangeNat(p, KindOf(fn)) }
    [] fn = "f32"     -> { Pad(<< a, b, c, d >>) : a, b \in {0, 1, 255}, c \in {0, 127, 128}, d \in {0, 63, 127, 128, 191, 255} }
    [] fn = "f64"     -> { << a, 0, b, 0, a, b, c, d >> : a, b \in {0, 1, 255}, c \in {0, 127, 240}, d \in {0, 63, 127, 191, 255} }
    [] fn = "tag"     -> { Pad(<< a, b, c, d >>) : a, b, c \in {0, 1, 127, 128, 255}, d \in {0, 1, 63, 64, 127} }
(* bin_write_integer takes i64-convertible numbers, so there is no u64 writer *)
WriterF == {"unit", "bool", "char", "variant", "f32", "f64", "tag"} \cup (IntF \ {"integer:u64"}) \cup NatF
ReaderF == {"unit", "bool", "char", "variant", "tag", "string", "bytes"} \cup IntF \cup NatF

Wire1(fn, v) ==
  CASE fn \in {"unit", "bool", "char", "variant"} -> << v[1] >>
    [] fn \in IntF -> EncInt(v)
    [] fn \in NatF -> EncNat0(v)
    [] fn = "f32" -> Low(v, 4)
    [] fn = "f64" -> v
    [] fn = "tag" -> TagWire(Low(v, 4))

PNeed == CASE f \in {"unit", "bool", "char", "variant"} -> 1
           [] f = "tag" -> 4
           [] f \in IntF -> IntNeed
           [] f \in NatF -> Nat0Need
           [] f \in {"string", "bytes"} -> StrNeed

Init == /\ todo = << "item" >> /\ inp = << >> /\ closed = FALSE /\ pos = 0 /\ toks = << >>
        /\ out = << >>
        /\ \/ mode = "w" /\ f \in WriterF /\ st = "write" /\ x \in Args(f)
           \/ mode = "r" /\ f \in ReaderF /\ st = "run" /\ x = << >>

Write == /\ mode = "w" /\ st = "write"
         /\ out' = Wire1(f, x) /\ st' = "written"
         /\ UNCHANGED << todo, inp, closed, pos, toks, f, mode, x >>
(* read back what was written *)
ReadBack == /\ mode = "w" /\ st = "written" /\ f \in ReaderF
            /\ mode' = "b" /\ inp' = out /\ closed' = TRUE /\ st' = "run"
            /\ UNCHANGED << todo, pos, toks, f, x, out >>

Has == Running /\ todo # << >> /\ Avail >= PNeed
Got(n, v) == Accept(n, << v >>, << >>)
Read == /\ Has /\ UNCHANGED << f, mode, x, out >>
        /\ CASE f = "unit" -> IF At(1) = 0 THEN Got(1, << >>) ELSE Reject("InvalidByte")
             [] f = "bool" -> IF At(1) \in {0, 1} THEN Got(1, << At(1) >>) ELSE Reject("InvalidByte")
             [] f \in {"char", "variant"} -> Got(1, << At(1) >>)
             [] f = "tag" -> IF TagOdd(Slice(4)) THEN Got(4, TagOfWire(Slice(4))) ELSE Reject("any")
             [] f \in IntF -> IF BadLead(At(1), TRUE) THEN Reject("InvalidIntegerByte")
                              ELSE IF InRange(IntAt, KindOf(f)) THEN Got(IntNeed, IntAt)
                              ELSE Reject("DestinationIntegerOverflow")
             [] f \in NatF -> IF BadLead(At(1), FALSE) THEN Reject("InvalidIntegerByte")
                              ELSE IF InRangeNat(Nat0At, KindOf(f)) THEN Got(Nat0Need, Nat0At)
                              ELSE Reject("DestinationIntegerOverflow")
             [] f \in {"string", "bytes"} ->
                  IF BadLead(At(1), FALSE) THEN Reject("InvalidIntegerByte")
                  ELSE LET b == SubSeq(inp, pos + Nat0Need + 1, pos + StrNeed) IN
                       IF f = "bytes" \/ ValidUtf8(b) THEN Got(StrNeed, b) ELSE Reject("Io")
Finish == /\ Running /\ todo = << >> /\ st' = "ok"
          /\ UNCHANGED << todo, inp, closed, pos, toks, f, mode, x, out >>
Truncated == /\ Running /\ todo # << >> /\ Avail < PNeed /\ closed /\ Reject("Io")
             /\ UNCHANGED << f, mode, x, out >>

Payload(w, off) == IF off = w - 1 THEN {0, 1, 127, 128, 255}
                   ELSE IF w = 3 THEN {0, 1, 127, 128, 255}
                   ELSE IF w = 5 THEN {0, 128, 255} ELSE {0, 255}
Alpha(off) ==
  CASE f \in {"unit", "bool", "char", "variant"} -> {0, 1, 2, 127, 128, 255}
    [] f = "tag" -> {0, 1, 127, 128, 255}
    [] f \in IntF -> IF off = 0 THEN 0..255 ELSE Payload(IntNeed, off)
    [] f \in NatF -> IF off = 0 THEN 0..255 ELSE Payload(Nat0Need, off)
    [] f \in {"string", "bytes"} -> IF off = 0 THEN {0, 1, 2, 3, 127, 128, 252, 253, 254, 255}
                      ELSE IF off < Nat0Need THEN (IF off = 1 THEN {0, 1, 2} ELSE {0, 1})
                      ELSE {0, 65, 128, 169, 195, 237, 244}
Starved == mode = "r" /\ Running /\ todo # << >> /\ Avail < PNeed /\ ~closed
MaxLen == IF f \in {"string", "bytes"} THEN 5 ELSE 9
EnvByte == /\ Starved /\ Len(inp) < MaxLen
           /\ \E b \in Alpha(Avail) : inp' = Append(inp, b)
           /\ UNCHANGED << todo, closed, pos, toks, st, f, mode, x, out >>
EnvEof  == /\ Starved /\ closed' = TRUE
           /\ UNCHANGED << todo, inp, pos, toks, st, f, mode, x, out >>
EnvMore == /\ mode = "r" /\ st = "ok" /\ ~closed /\ closed' = TRUE /\ inp' = Append(inp, 1)
           /\ UNCHANGED << todo, pos, toks, st, f, mode, x, out >>

Next == Write \/ ReadBack \/ Read \/ Finish \/ Truncated \/ EnvByte \/ EnvEof \/ EnvMore
Spec == Init /\ [][Next]_vars

Width(v) == LET n == Len(v) IN n
RoundTrip == (mode = "b" /\ st # "run") =>
               /\ st = "ok" /\ pos = Len(out)
               /\ toks[1] = (IF f = "unit" THEN << >>
                             ELSE IF f \in {"bool", "char", "variant"} THEN << x[1] >>
                             ELSE IF f = "tag" THEN Low(x, 4) ELSE x)
Minimal == (st = "written" /\ f \in IntF \cup NatF) => Len(out) \in {1, 2, 3, 5, 9}
Export ==
  /\ st = "written" => CSVWrite("%1$s", << ToJson([op |-> "wp", f |-> f, x |-> x, out |-> out]) >>, IOEnv.OUT)
  /\ (mode = "r" /\ st # "run") =>
       CSVWrite("%1$s", << ToJson([op |-> "rp", f |-> f, in |-> inp, st |-> st, n |-> pos,
                                   val |-> IF st = "ok" THEN toks[1] ELSE << >>]) >>, IOEnv.OUT)
=============================================================================

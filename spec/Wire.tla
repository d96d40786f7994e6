-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The bin_prot wire format, as byte sequences.                            *)
(*                                                                         *)
(* Integers are 64 bit two's complement numbers represented by their 8     *)
(* little endian bytes, so every boundary of the variable length format is *)
(* expressible without big numbers (TLC's integers have 32 bits).          *)
(*                                                                         *)
(* A value is represented by its pre-order token stream; a token is        *)
(*   [t |-> kind, b |-> payload bytes, s |-> name].                        *)
(* bin_prot's encoding is a homomorphism from token streams to byte        *)
(* strings: Enc(toks) is the concatenation of EncTok(toks[i]).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CODE_NEG_INT8 == 255
CODE_INT16    == 254
CODE_INT32    == 253
CODE_INT64    == 252

Tok(t, b)     == [t |-> t, b |-> b, s |-> ""]
NTok(t, b, s) == [t |-> t, b |-> b, s |-> s]

-----------------------------------------------------------------------------
(* 64 bit numbers as 8 little endian bytes *)
SignByte(b)         == IF b >= 128 THEN 255 ELSE 0
Neg(x)              == x[8] >= 128
FitsSigned(x, n)    == \A i \in (n + 1)..8 : x[i] = SignByte(x[n])
FitsUnsigned(x, n)  == \A i \in (n + 1)..8 : x[i] = 0
Zero8               == <<0, 0, 0, 0, 0, 0, 0, 0>>
ExtendSigned(w)     == [i \in 1..8 |-> IF i <= Len(w) THEN w[i] ELSE SignByte(w[Len(w)])]
ExtendUnsigned(w)   == [i \in 1..8 |-> IF i <= Len(w) THEN w[i] ELSE 0]
Low(x, n)           == [i \in 1..n |-> x[i]]

BIG == 1073741824   \* any length that cannot occur in an actual input
ToNat(x) == IF FitsUnsigned(x, 4) /\ x[4] < 64
            THEN x[1] + 256 * x[2] + 65536 * x[3] + 16777216 * x[4]
            ELSE BIG
FromNat(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0 >>

(* the destination types of a variable length integer *)
InRange(x, k) == CASE k = "i8"  -> FitsSigned(x, 1)
                   [] k = "i16" -> FitsSigned(x, 2)
                   [] k = "i32" -> FitsSigned(x, 4)
                   [] k = "i64" -> TRUE
                   [] k = "u8"  -> FitsUnsigned(x, 1)
                   [] k = "u16" -> FitsUnsigned(x, 2)
                   [] k = "u32" -> FitsUnsigned(x, 4)
                   [] k = "u64" -> ~Neg(x)
(* the destination types of a Nat0: x is an unsigned 64 bit number *)
InRangeNat(x, k) == CASE k = "u8"  -> FitsUnsigned(x, 1)
                      [] k = "u16" -> FitsUnsigned(x, 2)
                      [] k = "u32" -> FitsUnsigned(x, 4)
                      [] k = "u64" -> TRUE

(* the unique encoding the writer must choose *)
EncInt(x) == IF ~Neg(x)
             THEN IF FitsUnsigned(x, 1) /\ x[1] < 128 THEN << x[1] >>
                  ELSE IF FitsSigned(x, 2) THEN << CODE_INT16 >> \o Low(x, 2)
                  ELSE IF FitsSigned(x, 4) THEN << CODE_INT32 >> \o Low(x, 4)
                  ELSE << CODE_INT64 >> \o Low(x, 8)
             ELSE IF FitsSigned(x, 1) THEN << CODE_NEG_INT8, x[1] >>
                  ELSE IF FitsSigned(x, 2) THEN << CODE_INT16 >> \o Low(x, 2)
                  ELSE IF FitsSigned(x, 4) THEN << CODE_INT32 >> \o Low(x, 4)
                  ELSE << CODE_INT64 >> \o Low(x, 8)
EncNat0(x) == IF FitsUnsigned(x, 1) /\ x[1] < 128 THEN << x[1] >>
              ELSE IF FitsUnsigned(x, 2) THEN << CODE_INT16 >> \o Low(x, 2)
              ELSE IF FitsUnsigned(x, 4) THEN << CODE_INT32 >> \o Low(x, 4)
              ELSE << CODE_INT64 >> \o Low(x, 8)

-----------------------------------------------------------------------------
(* OCaml's hash of a polymorphic variant label, modulo 2^31, as 4 bytes LE. *)
(* One round is  h := 223 * h + c, computed on byte limbs with carries.     *)
HashRound(h, c) ==
  LET a == 223 * h[1] + c
      b == 223 * h[2] + (a \div 256)
      d == 223 * h[3] + (b \div 256)
      e == 223 * h[4] + (d \div 256)
  IN << a % 256, b % 256, d % 256, e % 256 >>
RECURSIVE HashFrom(_, _, _)
HashFrom(l, i, h) == IF i > Len(l) THEN h ELSE HashFrom(l, i + 1, HashRound(h, l[i]))
Hash32(l) == HashFrom(l, 1, <<0, 0, 0, 0>>)
Hash(l)   == LET h == Hash32(l) IN << h[1], h[2], h[3], h[4] % 128 >>

(* 31 bit number (4 bytes LE) <-> the 4 bytes on the wire: h * 2 + 1 *)
Bit7(b) == b \div 128
TagWire(h) == << (h[1] * 2 + 1) % 256,
                 (h[2] * 2 + Bit7(h[1])) % 256,
                 (h[3] * 2 + Bit7(h[2])) % 256,
                 (h[4] * 2 + Bit7(h[3])) % 256 >>
TagOfWire(w) == << w[1] \div 2 + 128 * (w[2] % 2),
                   w[2] \div 2 + 128 * (w[3] % 2),
                   w[3] \div 2 + 128 * (w[4] % 2),
                   w[4] \div 2 >>
TagOdd(w) == w[1] % 2 = 1
FromNat4(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>

-----------------------------------------------------------------------------
(* UTF-8 well-formedness (Unicode, table 3-7) *)
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
  LET n == Len(b)
      Cont(j)       == j <= n /\ b[j] >= 128 /\ b[j] <= 191
      In(j, lo, hi) == j <= n /\ b[j] >= lo /\ b[j] <= hi
  IN IF i > n THEN TRUE
     ELSE LET c == b[i] IN
       IF c < 128 THEN Utf8From(b, i + 1)
       ELSE IF c >= 194 /\ c <= 223 THEN Cont(i + 1) /\ Utf8From(b, i + 2)
       ELSE IF c = 224 THEN In(i + 1, 160, 191) /\ Cont(i + 2) /\ Utf8From(b, i + 3)
       ELSE IF c = 237 THEN In(i + 1, 128, 159) /\ Cont(i + 2) /\ Utf8From(b, i + 3)
       ELSE IF c >= 225 /\ c <= 239 THEN Cont(i + 1) /\ Cont(i + 2) /\ Utf8From(b, i + 3)
       ELSE IF c = 240 THEN In(i + 1, 144, 191) /\ Cont(i + 2) /\ Cont(i + 3) /\ Utf8From(b, i + 4)
       ELSE IF c >= 241 /\ c <= 243 THEN Cont(i + 1) /\ Cont(i + 2) /\ Cont(i + 3) /\ Utf8From(b, i + 4)
       ELSE IF c = 244 THEN In(i + 1, 128, 143) /\ Cont(i + 2) /\ Cont(i + 3) /\ Utf8From(b, i + 4)
       ELSE FALSE
(* long ASCII payloads are recognised without recursion *)
ValidUtf8(b) == (\A i \in 1..Len(b) : b[i] < 128) \/ Utf8From(b, 1)

-----------------------------------------------------------------------------
(* The encoding of one token.  Both the typed and the loosely typed          *)
(* (bin_prot::Value) writers are covered: structural tokens of products      *)
(* ("rec", "field", "tup") leave no bytes.                                   *)
EncTok(k) ==
  CASE k.t = "unit"  -> << 0 >>
    [] k.t = "bool"  -> << k.b[1] >>
    [] k.t = "char"  -> << k.b[1] >>
    [] k.t = "u8"    -> << k.b[1] >>
    [] k.t = "int"   -> EncInt(k.b)
    [] k.t = "nat0"  -> EncNat0(k.b)
    [] k.t = "f32"   -> k.b
    [] k.t = "f64"   -> k.b
    [] k.t = "str"   -> EncNat0(FromNat(Len(k.b))) \o k.b
    [] k.t = "none"  -> << 0 >>
    [] k.t = "some"  -> << 1 >>
    [] k.t = "seq"   -> EncNat0(k.b)
    [] k.t = "var"   -> << k.b[1] >>
    [] k.t = "poly"  -> TagWire(Hash(k.b))
    [] k.t = "rec"   -> << >>
    [] k.t = "field" -> << >>
    [] k.t = "tup"   -> << >>
    [] k.t = "list"  -> EncNat0(k.b)
    [] k.t = "string"-> EncNat0(FromNat(Len(k.b))) \o k.b
    [] k.t = "sum"   -> << k.b[1] >>
    [] k.t = "pv"    -> TagWire(k.b)

RECURSIVE EncFrom(_, _, _)
EncFrom(ts, i, acc) == IF i > Len(ts) THEN acc ELSE EncFrom(ts, i + 1, acc \o EncTok(ts[i]))
Enc(ts) == EncFrom(ts, 1, << >>)

=============================================================================

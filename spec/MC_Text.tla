------------------------------- MODULE MC_Text -------------------------------
(* Texts of every kind and what they mean, values and how they are written.  *)
EXTENDS TextForm, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxFree, MaxBytes, Modes
VARIABLES mode, text, done
vars == << mode, text, done >>
Numeric == {"amount", "decimal", "u32", "u64", "fp", "field10"}
Read(k, t) == CASE k \in {"amount", "decimal"} -> ReadAmount(t)
                [] k = "u32" -> ReadInt(t, U32Max)
                [] k = "u64" -> ReadInt(t, U64Max)
                [] k \in {"fp", "field10"} -> ReadInt(t, FpMax)
                [] k = "field16" -> ReadField16(t)
                [] k \in {"felt", "bigint"} -> Read32(t)
                [] k = "felts" -> ReadMany(t)
                [] k = "char" -> ReadChar(t)
                [] k = "bytes" -> Must(Encode(t))
                [] k = "base64" -> Read64(t)
(* how a value is written; NoText: it is not, or in some way that reads back *)
Write(k, v) == CASE k = "amount" -> WriteAmount(v)
                 [] k = "decimal" -> WriteDecimal(v)
                 [] k \in {"u32", "u64", "fp"} -> Plain(v)
                 [] k = "felt" -> << 48, 120 >> \o WriteHex(v)
                 [] k \in {"bigint", "felts"} -> WriteHex(v)
                 [] k = "char" -> IF v[1] < 128 THEN v ELSE NoText
                 [] k = "bytes" -> Decode(v)
                 [] k = "base64" -> Write64(v)
(* ---- numbers: every short text over an alphabet, and composed long ones *)
Alphabet == << 48, 49, 53, 57, 43, 45, 46, 95, 32, 120, 1632 >>   \* 0 1 5 9 + - . _ space x arabic zero
S(d) == Ascii(d)
Heads == { << >>, << 43 >>, << 45 >>, << 32 >>, << 95 >> }
Ints == { << >>, << 48 >>, << 49 >>, << 48, 48, 55 >>, S(U32Max), S(<< 4, 2, 9, 4, 9, 6, 7, 2, 9, 6 >>), S(<< 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9 >>),
          S(<< 1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 2 >>), S(SubSeq(U64Max, 1, 11)), S(<< 1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 4 >>), S(U64Max),
          S([U64Max EXCEPT ![20] = 6]), S(<< 1 >> \o Zeros(20)), S(Zeros(25) \o << 7 >>), S(FpMax), S([FpMax EXCEPT ![77] = 7]), S(FpMax \o << 0 >>),
          << 49, 95, 48 >>, << 49, 101, 51 >>, << 48, 120, 49 >> }
Fracs == { << >>, << 48 >>, << 53 >>, S(Zeros(8) \o << 1 >>), S(<< 1, 2, 3, 4, 5, 6, 7, 8, 9 >>), S(SubSeq(U64Max, 12, 20)), S(<< 7, 0, 9, 5, 5, 1, 6, 1, 6 >>),
           S(<< 9, 9, 9, 9, 9, 9, 9, 9, 9 >>), S(<< 1, 2, 3, 4, 5, 6, 7, 8, 9, 0 >>), S(<< 1, 2, 3, 4, 5, 6, 7, 8, 9, 1 >>), S(Zeros(12)), S(Zeros(9) \o << 5 >>),
           S(<< 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9 >>), << 43, 53 >>, << 45, 53 >>, << 53, 120 >>, << 32, 53 >>, << 53, 32 >>, << 53, 95, 53 >>, << 46 >>, << 48, 46, 48 >> }
Composed == { h \o i \o f \o t : h \in Heads, i \in Ints, f \in {<< >>} \cup { << 46 >> \o x : x \in Fracs }, t \in {<< >>, << 32 >>, << 46 >>} }
Halves == { << >>, << 1 >>, << 9 >>, << 1, 0 >>, << 9, 9, 9, 9, 9, 9, 9, 9, 9 >>, << 1 >> \o Zeros(8), << 1 >> \o Zeros(9), << 1 >> \o Zeros(7) \o << 3, 0 >>,
            << 1, 0 >> \o Zeros(9), << 1, 2, 0, 0 >> \o Zeros(9), << 1, 2, 0, 0, 5 >> \o Zeros(8), << 7, 0, 0, 0, 0, 0, 0, 0, 1, 0 >> \o Zeros(2), U32Max,
            SubSeq(U64Max, 1, 11) \o Zeros(9), U64Max }
NumberValues(k) == { v \in Halves \cup {FpMax} : Le(v, CASE k = "u32" -> U32Max [] k = "fp" -> FpMax [] OTHER -> U64Max) }
(* ---- hexadecimal *)
Some(n, k) == [i \in 1..n |-> HexDigit((i * k + (i \div 7)) % 16)]
Up(t) == [i \in 1..Len(t) |-> IF t[i] \in 97..102 THEN t[i] - 32 ELSE t[i]]
HexBodies == UNION { { Some(n, 3), Up(Some(n, 5)), [i \in 1..n |-> 48], [i \in 1..n |-> 102] } : n \in {0, 1, 2, 32, 62, 63, 64, 65, 66, 126, 127, 128, 129, 192, 256, 320} }
Spoil(b) == { [b EXCEPT ![i] = c] : i \in { 1, 2, 33, Len(b) - 1, Len(b) }, c \in {103, 120, 32, 233, 48 + 65248} }
HexPrefixes == { << >>, << 48, 120 >>, << 92, 120 >>, << 48, 88 >>, << 56, 120 >>, << 120 >>, << 48, 120, 48, 120 >>, << 32 >> }
HexTexts == { p \o b : p \in HexPrefixes, b \in HexBodies }
  \cup UNION { Spoil(Some(n, 3)) : n \in {64, 128} }
  \cup { Some(64, 3) \o p \o Some(n, 3) : p \in { << 48, 120 >>, << 92, 120 >> }, n \in {62, 64} }
Edge == << 0, 1, 15, 16, 127, 128, 171, 255 >>
ByteStrings(n) == { [i \in 1..n |-> c] : c \in {0, 255} } \cup { [i \in 1..n |-> Edge[((i * k) % 8) + 1]] : k \in 1..3 }
Field16Texts == { S([i \in 1..Len(v) |-> IF v[i] < 10 THEN v[i] ELSE v[i] + 39]) : v \in { FpMaxHex, [FpMaxHex EXCEPT ![64] = 1], << 1 >> \o Zeros(64), << 15 >> \o Zeros(62), [FpMaxHex EXCEPT ![1] = 3] } }
  \cup { << >>, << 48 >>, << 102 >>, << 70 >>, << 48, 120, 49 >>, << 45, 49 >>, << 103 >>, << 49, 95, 49 >>, << 32, 49 >> }
(* ---- characters *)
Points == << 0, 1, 34, 92, 97, 127, 128, 233, 255, 256, 2047, 2048, 55295, 57344, 65535, 65536, 1114111 >>
EdgeBytes == << 0, 65, 127, 128, 159, 160, 191, 193, 194, 223, 224, 237, 239, 240, 244, 245, 143, 144 >>
B64Alphabet == << 65, 81, 103, 122, 57, 45, 95, 61, 43, 47, 32 >>     \* A Q g z 9 - _ = + / space
(* ---- behaviours: a text grows character by character, or is taken whole *)
Grow(m) == CASE m = "number" -> [a |-> Alphabet, n |-> MaxFree]
             [] m = "points" -> [a |-> Points, n |-> 3]
             [] m = "utf8" -> [a |-> EdgeBytes, n |-> MaxBytes]
             [] m = "base64" -> [a |-> B64Alphabet, n |-> MaxFree]
             [] OTHER -> [a |-> << >>, n |-> 0]
Taken(m) == CASE m = "composed" -> Composed
              [] m = "hex" -> HexTexts
              [] m = "field16" -> Field16Texts
              [] OTHER -> {<< >>}
Init == mode \in Modes /\ text \in Taken(mode) /\ done = FALSE
Next == /\ ~ done /\ mode' = mode
        /\ \/ /\ Len(text) < Grow(mode).n /\ \E i \in 1..Len(Grow(mode).a) : text' = Append(text, Grow(mode).a[i])
              /\ done' = FALSE
           \/ done' = TRUE /\ text' = text
Kinds(m) == CASE m \in {"number", "composed"} -> Numeric
              [] m = "hex" -> {"felt", "bigint", "felts"}
              [] m = "field16" -> {"field16"}
              [] m = "points" -> {"char", "bytes"}
              [] m = "base64" -> {"base64"}
              [] OTHER -> {}
(* what has a text reads back from it; no two values share one *)
Values == [k \in {"amount", "decimal", "u32", "u64", "fp"} |-> NumberValues(k)]
  @@ [k \in {"felt", "bigint"} |-> ByteStrings(32)]
  @@ ("felts" :> UNION { ByteStrings(32 * n) : n \in 0..4 }) @@ ("char" :> { << b >> : b \in 0..255 })
  @@ ("base64" :> UNION { ByteStrings(n) : n \in {0, 1, 2, 3, 4, 5, 31, 32, 33, 300} })
ReadsBack == \A k \in DOMAIN Values : \A v \in Values[k] : LET t == Write(k, v) IN t = NoText \/ Read(k, t) = Must(v)
OnePerValue == \A k \in DOMAIN Values : \A v, w \in Values[k] : Write(k, v) = Write(k, w) => v = w \/ Write(k, v) = NoText
Utf8Inverse == mode = "utf8" => LET t == Decode(text) IN t = NoText \/ Encode(t) = text
ASSUME ReadsBack /\ OnePerValue
Inv == Utf8Inverse
Out(r) == [s |-> r.s, v |-> r.v]
Case == IF mode = "utf8" THEN << [kind |-> "bytes", value |-> text, text |-> Write("bytes", text), s |-> "write"] >>
        ELSE IF mode = "values" THEN << [values |-> [k \in DOMAIN Values |-> { [value |-> v, text |-> Write(k, v)] : v \in Values[k] }]] >>
        ELSE << [text |-> text, want |-> [k \in Kinds(mode) |-> Out(Read(k, text))]] >>
Export == done => CSVWrite("%1$s", << ToJson(Case[1]) >>, IOEnv.OUT)
=============================================================================

------------------------------ MODULE TextForm ------------------------------
(* What texts mean.  A text is the sequence of its code points, a number the *)
(* sequence of its decimal digits without leading zeros (0 is << >>).        *)
(* Reading a text yields [s |-> ..., v |-> value]:                           *)
(*   "must"   a plain way of writing the value, which has to be understood   *)
(*   "may"    an unusual way of writing it, understood as that or refused    *)
(*   "never"  not the text of a value, which has to be refused               *)
EXTENDS Integers, Sequences, SequencesExt
Must(v) == [s |-> "must", v |-> v]
May(v) == [s |-> "may", v |-> v]
Never == [s |-> "never", v |-> << >>]
Soften(r) == IF r.s = "must" THEN May(r.v) ELSE r
Chars(t) == { t[i] : i \in 1..Len(t) }
(* ---- numbers as digits *)
IsDigit(c) == c \in 48..57
Digits(t) == [i \in 1..Len(t) |-> t[i] - 48]
RECURSIVE Norm(_)
Norm(d) == IF d # << >> /\ d[1] = 0 THEN Norm(Tail(d)) ELSE d
Zeros(n) == [i \in 1..n |-> 0]
LexLe(a, b) == \/ a = b
               \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
(* of normal numbers *)
Le(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))
U32Max == << 4, 2, 9, 4, 9, 6, 7, 2, 9, 5 >>
U64Max == << 1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5 >>
(* the largest canonical element of the base field *)
FpMax == << 2, 8, 9, 4, 8, 0, 2, 2, 3, 0, 9, 3, 2, 9, 0, 4, 8, 8, 5, 5, 8, 9, 2, 7, 4, 6, 2, 5, 2, 1, 7, 1, 9, 7, 6, 9, 6, 3, 3, 6, 3, 0,
            5, 6, 4, 8, 1, 9, 4, 1, 5, 6, 0, 7, 1, 5, 9, 5, 4, 6, 7, 6, 7, 6, 4, 3, 4, 9, 9, 6, 7, 6, 3, 0, 3, 3, 6 >>
Plain(v) == IF v = << >> THEN << 48 >> ELSE [i \in 1..Len(v) |-> v[i] + 48]
(* a sign, and separators, are unusual *)
ReadInt(t, max) ==
  LET signed == t # << >> /\ t[1] \in {43, 45}
      u == IF signed THEN Tail(t) ELSE t
      w == SelectSeq(u, LAMBDA c : c # 95)
      v == Norm(Digits(w))
  IN IF w = << >> \/ (\E c \in Chars(w) : ~ IsDigit(c)) \/ u[1] = 95 THEN Never
     ELSE IF ~ Le(v, max) \/ (signed /\ t[1] = 45 /\ v # << >>) THEN Never
     ELSE IF signed \/ w # u \/ (Len(u) > 1 /\ u[1] = 48) THEN May(v) ELSE Must(v)
(* amounts: a decimal fraction of nine digits at most, counted in billionths *)
Places == 9
Dots(t) == { i \in 1..Len(t) : t[i] = 46 }
ReadAmount(t) ==
  IF Dots(t) = {} THEN LET r == ReadInt(t, U64Max)  v == Norm(r.v \o Zeros(Places))
                       IN IF r.s = "never" \/ ~ Le(v, U64Max) THEN Never ELSE [r EXCEPT !.v = v]
  ELSE IF \E i, j \in Dots(t) : i # j THEN Never
  ELSE LET at == CHOOSE i \in Dots(t) : TRUE
           q == SubSeq(t, 1, at - 1)
           f == SubSeq(t, at + 1, Len(t))
           whole == IF q = << >> THEN May(<< >>) ELSE ReadInt(q, U64Max)
           first == IF Len(f) > Places THEN SubSeq(f, 1, Places) ELSE f
           rest == IF Len(f) > Places THEN SubSeq(f, Places + 1, Len(f)) ELSE << >>
           v == Norm(whole.v \o Digits(first) \o Zeros(Places - Len(first)))
       IN IF whole.s = "never" \/ (q = << >> /\ f = << >>) \/ (\E c \in Chars(f) : ~ IsDigit(c)) THEN Never
          ELSE IF (\E c \in Chars(rest) : c # 48) \/ ~ Le(v, U64Max) THEN Never
          ELSE IF whole.s = "must" /\ f # << >> /\ rest = << >> THEN Must(v) ELSE May(v)
Whole(v) == IF Len(v) > Places THEN SubSeq(v, 1, Len(v) - Places) ELSE << >>
Fraction(v) == IF Len(v) > Places THEN SubSeq(v, Len(v) - Places + 1, Len(v)) ELSE Zeros(Places - Len(v)) \o v
RECURSIVE Trim(_)
Trim(d) == IF d # << >> /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
Ascii(d) == [i \in 1..Len(d) |-> d[i] + 48]
(* all nine places, or as few as are needed *)
WriteAmount(v) == Plain(Whole(v)) \o << 46 >> \o Ascii(Fraction(v))
WriteDecimal(v) == LET f == Trim(Fraction(v)) IN Plain(Whole(v)) \o (IF f = << >> THEN << >> ELSE << 46 >> \o Ascii(f))
(* ---- hexadecimal *)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 16
HexDigit(n) == IF n < 10 THEN n + 48 ELSE n + 87
IsHex(t) == \A c \in Chars(t) : HexVal(c) < 16
Bytes(t) == [i \in 1..(Len(t) \div 2) |-> 16 * HexVal(t[2 * i - 1]) + HexVal(t[2 * i])]
WriteHex(b) == [i \in 1..(2 * Len(b)) |-> HexDigit(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]
Prefixed(t) == Len(t) >= 2 /\ t[2] = 120 /\ t[1] \in {48, 92}
Body(t) == IF Prefixed(t) THEN SubSeq(t, 3, Len(t)) ELSE t
Lower(t) == \A c \in Chars(t) : c \notin 65..70
ReadHex(t, fits(_)) == LET b == Body(t) IN IF ~ fits(Len(b)) \/ ~ IsHex(b) THEN Never ELSE IF Lower(b) THEN Must(Bytes(b)) ELSE May(Bytes(b))
Read32(t) == ReadHex(t, LAMBDA n : n = 64)
ReadMany(t) == ReadHex(t, LAMBDA n : n % 64 = 0)
(* a field element in hexadecimal, its most significant digit first; its bytes *)
FpMaxHex == << 4 >> \o Zeros(31) \o << 2, 2, 4, 6, 9, 8, 15, 12, 0, 9, 4, 12, 15, 9, 1, 11, 9, 9, 2, 13, 3, 0, 14, 13, 0, 0, 0, 0, 0, 0, 0, 0 >>
ReadField16(t) ==
  LET w == SelectSeq(t, LAMBDA c : c # 95)
      v == Norm([i \in 1..Len(w) |-> HexVal(w[i])])
  IN IF w = << >> \/ ~ IsHex(w) \/ t[1] = 95 \/ ~ Le(v, FpMaxHex) THEN Never
     ELSE IF w = t /\ Lower(w) /\ (Len(w) = 1 \/ w[1] # 48) THEN Must(v) ELSE May(v)
(* ---- characters and bytes *)
Utf8(c) == IF c < 128 THEN << c >>
           ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
           ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
           ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
Encode(t) == FlattenSeq([i \in 1..Len(t) |-> Utf8(t[i])])
Tail128(b, i, n) == i + n - 1 <= Len(b) /\ \A j \in (i + 1)..(i + n - 1) : b[j] \in 128..191
Width(b, i) == CASE b[i] < 128 -> 1
                 [] b[i] \in 194..223 /\ Tail128(b, i, 2) -> 2
                 [] b[i] \in 224..239 /\ Tail128(b, i, 3) /\ (b[i] = 224 => b[i + 1] >= 160) /\ (b[i] = 237 => b[i + 1] < 160) -> 3
                 [] b[i] \in 240..244 /\ Tail128(b, i, 4) /\ (b[i] = 240 => b[i + 1] >= 144) /\ (b[i] = 244 => b[i + 1] < 144) -> 4
                 [] OTHER -> 0
Point(b, i, n) == CASE n = 1 -> b[i]
                    [] n = 2 -> (b[i] - 192) * 64 + (b[i + 1] - 128)
                    [] n = 3 -> (b[i] - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)
                    [] n = 4 -> (b[i] - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)
NoText == << 1114112 >>
RECURSIVE DecodeFrom(_, _)
DecodeFrom(b, i) == IF i > Len(b) THEN << >>
                    ELSE LET n == Width(b, i) IN
                      IF n = 0 THEN NoText
                      ELSE LET r == DecodeFrom(b, i + n) IN IF r = NoText THEN NoText ELSE << Point(b, i, n) >> \o r
Decode(b) == DecodeFrom(b, 1)
(* one byte as the character with that code; beyond ASCII there is no agreed text *)
ReadChar(t) == IF Len(t) # 1 THEN Never ELSE IF t[1] < 128 THEN Must(t) ELSE IF t[1] < 256 THEN May(t) ELSE Never
(* ---- base 64 with the alphabet for URLs *)
B64(n) == IF n < 26 THEN n + 65 ELSE IF n < 52 THEN n + 71 ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 45 ELSE 95
Un64(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4 [] c = 45 -> 62 [] c = 95 -> 63 [] OTHER -> 64
Ceil(n, k) == (n + k - 1) \div k
Write64(b) ==
  LET n == Len(b)
      at(i) == IF i <= n THEN b[i] ELSE 0
      sextet(j) == LET g == 3 * (j \div 4) IN
        CASE (j % 4) = 0 -> at(g + 1) \div 4
          [] (j % 4) = 1 -> ((at(g + 1) % 4) * 16) + (at(g + 2) \div 16)
          [] (j % 4) = 2 -> ((at(g + 2) % 16) * 4) + (at(g + 3) \div 64)
          [] (j % 4) = 3 -> at(g + 3) % 64
  IN [j \in 1..(4 * Ceil(n, 3)) |-> IF j <= Ceil(8 * n, 6) THEN B64(sextet(j - 1)) ELSE 61]
Read64(t) ==
  LET eqs == { i \in 1..Len(t) : t[i] = 61 }
      end == IF eqs = {} THEN Len(t) ELSE (CHOOSE i \in eqs : \A j \in eqs : i <= j) - 1
      s == SubSeq(t, 1, end)
      v(i) == IF i <= end THEN Un64(s[i]) ELSE 0
      n == (end * 6) \div 8
      byte(i) == LET g == 4 * ((i - 1) \div 3) IN
        CASE (i % 3) = 1 -> ((v(g + 1) * 4) + (v(g + 2) \div 16)) % 256
          [] (i % 3) = 2 -> (((v(g + 2) % 16) * 16) + (v(g + 3) \div 4)) % 256
          [] (i % 3) = 0 -> (((v(g + 3) % 4) * 64) + v(g + 4)) % 256
      b == [i \in 1..n |-> byte(i)]
  IN IF (\E c \in Chars(s) : Un64(c) = 64) \/ (\E i \in (end + 1)..Len(t) : t[i] # 61) \/ end % 4 = 1 \/ Len(t) - end > (4 - (end % 4)) % 4 THEN Never
     ELSE IF Write64(b) = t THEN Must(b) ELSE May(b)
=============================================================================

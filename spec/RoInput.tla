------------------------------- MODULE RoInput -------------------------------
(* Random oracle inputs: field elements and bits, in the order appended.     *)
(* Numbers are given by their bytes, least significant first, as TLC's       *)
(* integers end at 32 bits.  A field element is an integer, negative ones    *)
(* standing for those below the modulus (-1 is p - 1).                       *)
EXTENDS Integers, Sequences
BitsOf(bs) == [i \in 1..8 * Len(bs) |-> (bs[(i - 1) \div 8 + 1] \div (2 ^ ((i - 1) % 8))) % 2]
Flag(b) == << IF b THEN 1 ELSE 0 >>
RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Cat(Tail(s))
(* u64 and u32 of a small number *)
Low(n, w) == [i \in 1..w |-> IF i <= 4 THEN (n \div (256 ^ (i - 1))) % 256 ELSE 0]
Max(w) == [i \in 1..w |-> 255]
=============================================================================

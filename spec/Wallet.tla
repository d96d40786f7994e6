------------------------------- MODULE Wallet -------------------------------
(* A wallet file holds a private key sealed with a password.  The key of the *)
(* seal is derived from the password, the salt and the two costs; ciphers    *)
(* are symbolic: what was sealed opens under the same key and nonce only.    *)
(* Byte strings are records [n |-> length, id |-> which, enc |-> how the     *)
(* text in the file spells it]; costs are names, as they exceed TLC's        *)
(* integers.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bytes(n, id) == [n |-> n, id |-> id, enc |-> "good"]
(* the memory cost counts bytes, of which whole KiB are used; the smallest   *)
(* is 8 KiB.  0: refused                                                     *)
KiB == [m8192 |-> 8, m9215 |-> 8, m9216 |-> 9, m16384 |-> 16, m8191 |-> 0, m0 |-> 0, neg1 |-> 0, neg8192 |-> 0,
        wrap |-> 0,         \* 2^42 + 8192, as many KiB as 8 modulo 2^32
        negwrap |-> 0]      \* 8192 - 2^42
Passes == [p1 |-> 1, p2 |-> 2, p3 |-> 3, p0 |-> 0, neg1 |-> 0, wrap |-> 0 (* 2^32 + 1 *)]
Key(d, pwd) == << d.salt.id, d.salt.n, KiB[d.mem], Passes[d.ops], pwd >>
Seal(key, nonce, plain) == [key |-> key, nonce |-> nonce.id, plain |-> plain, harm |-> "none"]
(* the parts of a file which have to be well spelt *)
Spelt(d) == \A f \in {"nonce", "salt", "cipher"} : d[f].enc = "good"
Readable(d) == d.shape = "plain" /\ d.box = "xsalsa20poly1305" /\ d.pw = "argon2i" /\ Spelt(d)
(* sizes and costs without a meaning *)
Meaningful(d) == d.nonce.n = 24 /\ d.salt.n \in 8..48 /\ KiB[d.mem] > 0 /\ Passes[d.ops] > 0
Opens(d, pwd) ==
  /\ Readable(d) /\ Meaningful(d)
  /\ d.cipher.harm = "none"
  /\ d.cipher.key = Key(d, pwd)
  /\ d.cipher.nonce = d.nonce.id
  /\ d.cipher.plain # "nothing"              \* not even a version byte
(* "must" be understood, "may" be refused, "never" *)
Import(d) == IF ~Readable(d) THEN "never" ELSE IF Meaningful(d) THEN "must" ELSE "may"
(* salts of more than sixteen bytes may fail to be written again *)
Export(d) == IF d.salt.n > 16 THEN "may" ELSE "must"
(* a scalar in 32 bytes *)
HasKeypair(plain) == plain \in {"key", "small"}
=============================================================================

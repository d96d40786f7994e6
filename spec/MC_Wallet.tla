------------------------------ MODULE MC_Wallet ------------------------------
(* Wallet files that differ from a sealed one in up to MaxDev places.        *)
EXTENDS Wallet, Json, CSV, IOUtils
CONSTANTS MaxDev
VARIABLES doc, sealed, owner, pwd, dev, touched
vars == << doc, sealed, owner, pwd, dev, touched >>
Fields == {"box", "pw", "nonce", "salt", "mem", "ops", "cipher", "shape"}
Spell(b) == { [b EXCEPT !.enc = e] : e \in {"char", "check", "version", "nocheck", "empty", "nonascii"} }
Change == [box |-> {"secretbox", "XSalsa20Poly1305", ""}, pw |-> {"argon2id", "Argon2i", ""},
           nonce |-> Spell(Bytes(24, 1)) \cup { Bytes(24, 2), Bytes(23, 1), Bytes(25, 1), Bytes(0, 1), Bytes(48, 1) },
           salt |-> Spell(Bytes(16, 1)) \cup { Bytes(16, 2) } \cup { Bytes(n, 1) : n \in {0, 7, 8, 15, 17, 48, 49} },
           mem |-> DOMAIN KiB \ {"m8192"}, ops |-> DOMAIN Passes \ {"p1"},
           shape |-> {"missing", "null", "number", "list", "one cost", "three costs", "cost in text", "cost with fraction", "no object", "no json", "empty", "trailing"}]
(* what can happen to the sealed bytes *)
Harm == {"tag", "first", "last", "cut", "longer", "headless", "short", "empty"}
Owners == {"ascii", "line", "none", "bytes", "long"}
Plains == {"key", "nothing", "version", "31", "33", "over", "small"}
(* a file may be sealed under other sizes and costs to begin with *)
Seals == { [salt |-> s, mem |-> m, ops |-> p] : s \in { Bytes(16, 1) }, m \in {"m8192"}, p \in {"p1"} }
    \cup { [salt |-> Bytes(n, 1), mem |-> "m8192", ops |-> "p1"] : n \in {8, 12, 32} }
    \cup { [salt |-> Bytes(16, 1), mem |-> m, ops |-> p] : m \in {"m9216", "m16384", "m9215"}, p \in {"p2", "p3"} }
Init == /\ dev = 0 /\ touched = {}
        /\ \E s \in Seals, o \in Owners, p \in Plains :
             /\ (o # "ascii" => p = "key") /\ (s.salt.n # 16 \/ s.mem # "m8192" => o = "ascii" /\ p = "key")
             /\ owner = o /\ pwd = o
             /\ LET d == [box |-> "xsalsa20poly1305", pw |-> "argon2i", nonce |-> Bytes(24, 1), salt |-> s.salt, mem |-> s.mem, ops |-> s.ops, shape |-> "plain"]
                IN doc = d @@ [cipher |-> [enc |-> "good"] @@ Seal(Key(d, o), d.nonce, p)]
             /\ sealed = doc
Touch(f) == dev < MaxDev /\ f \notin touched /\ touched' = touched \cup {f} /\ dev' = dev + 1
Set(f) == f \in DOMAIN Change /\ Touch(f) /\ \E x \in Change[f] : x # doc[f] /\ doc' = [doc EXCEPT ![f] = x] /\ UNCHANGED << sealed, owner, pwd >>
Damage == Touch("cipher") /\ UNCHANGED << sealed, owner, pwd >>
          /\ \/ \E h \in Harm : doc' = [doc EXCEPT !.cipher.harm = h]
             \/ \E e \in {"char", "check", "version", "nocheck", "empty"} : doc' = [doc EXCEPT !.cipher.enc = e]
Guess == Touch("pwd") /\ UNCHANGED << doc, sealed, owner >> /\ \E w \in (Owners \cup (IF owner = "none" THEN {"nul"} ELSE {"case", "nul", "prefix", "space", "newline", "indent"})) \ {pwd} : pwd' = w
Next == Damage \/ Guess \/ \E f \in DOMAIN Change : Set(f)
Spec == Init /\ [][Next]_vars

ok == Opens(doc, pwd)
(* only the owner's password opens a file, and only the file as it was sealed (but for the bytes beyond whole KiB) *)
Guarded == ok => /\ pwd = owner /\ doc.cipher = sealed.cipher /\ doc.salt = sealed.salt /\ doc.nonce = sealed.nonce
                 /\ KiB[doc.mem] = KiB[sealed.mem] /\ doc.ops = sealed.ops /\ doc.box = sealed.box /\ doc.pw = sealed.pw
Complete == dev = 0 /\ sealed.cipher.plain # "nothing" => ok
Case == [doc |-> doc, sealed |-> sealed, owner |-> owner, pwd |-> pwd, import |-> Import(doc), export |-> Export(doc), open |-> ok,
         keypair |-> ok /\ HasKeypair(doc.cipher.plain), plain |-> doc.cipher.plain]
Export_ == CSVWrite("%1$s", << ToJson(Case) >>, IOEnv.OUT)
=============================================================================

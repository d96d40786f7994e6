------------------------------- MODULE Account -------------------------------
(* Account documents as ledger databases hold them, in the legacy (main net) *)
(* and the berkeley format: the fields in order, each with its bytes.        *)
(* Numbers are eight bytes, least significant first.                         *)
EXTENDS Wire, SequencesExt
Auths == << "None", "Either", "Proof", "Signature", "Both", "Impossible" >>
AuthTag(a) == CHOOSE i \in 0..5 : Auths[i + 1] = a
(* a part of a document: its kind, what it is called and its bytes.  "raw"   *)
(* bytes may be any, a "tag" is below n, a number starts with a marker.      *)
P(k, f, b) == << [k |-> k, f |-> f, b |-> b, n |-> 0] >>
Tag(f, v, n) == << [k |-> "tag", f |-> f, b |-> << v >>, n |-> n] >>
Raw(f, b) == P("raw", f, b)
Num(f, x) == P("int", f, EncInt(x))
Flag(f, v) == Tag(f, IF v THEN 1 ELSE 0, 2)
V(n) == P("version", "version", [i \in 1..n |-> 1])
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, << >>, ss)
Key(f, k) == Raw(f, k.x) \o Flag(f, k.odd)
Perm(p) == Tag("perm", IF p.owner THEN 1 ELSE 0, 2) \o Flag("perm", p.flag)
Opt(f, here, body) == Tag(f, IF here THEN 1 ELSE 0, 2) \o (IF here THEN body ELSE << >>)
Units(f, apps) == Cat([i \in 1..Len(apps) |-> Opt(f, apps[i], Tag(f, 0, 1))])
Legacy(a) ==
  LET vnum(f, x) == V(2) \o Num(f, x) IN
  V(3) \o V(3) \o Key("key", a.key) \o V(3) \o Num("token", a.token) \o V(2) \o Perm(a.perm) \o vnum("balance", a.balance) \o vnum("nonce", a.nonce)
  \o V(1) \o Raw("receipt", a.receipt) \o Opt("delegate", a.delegated, V(2) \o Key("delegate", a.delegate)) \o V(1) \o Raw("voting", a.voting)
  \o V(2) \o Opt("timing", a.timing.timed, V(1) \o vnum("minimum", a.timing.minimum) \o vnum("cliff", a.timing.cliff) \o vnum("cliff_amount", a.timing.cliff_amount)
                                             \o vnum("increment", a.timing.increment) \o vnum("period", a.timing.period))
  \o V(2) \o Flag("stake", a.stake) \o Cat([i \in 1..6 |-> V(1) \o Tag("auth", AuthTag(a.auth[i]), 6)]) \o Units("app", << a.apps[1] >>)
Berkeley(a) ==
  Key("key", a.key) \o Num("token", a.token) \o Perm(a.perm) \o Raw("symbol", a.symbol) \o Num("balance", a.balance) \o Num("nonce", a.nonce)
  \o Raw("receipt", a.receipt) \o Opt("delegate", a.delegated, Key("delegate", a.delegate)) \o Raw("voting", a.voting)
  \o Opt("timing", a.timing.timed, Num("minimum", a.timing.minimum) \o Num("cliff", a.timing.cliff) \o Num("cliff_amount", a.timing.cliff_amount)
                                   \o Num("period", a.timing.period) \o Num("increment", a.timing.increment))
  \o Cat([i \in 1..11 |-> Tag("auth", AuthTag(a.auth[i]), 6)]) \o Units("app", a.apps)
Parts(fmt, a) == IF fmt = "legacy" THEN Legacy(a) ELSE Berkeley(a)
BytesOf(parts) == Cat([i \in 1..Len(parts) |-> parts[i].b])
=============================================================================

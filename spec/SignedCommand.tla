---------------------------- MODULE SignedCommand ----------------------------
(* Commands signed by an account's key (legacy format) and blocks of them.   *)
(* A payload p is a record: kind ("pay" or "del"), fee, token, amount,       *)
(* feeToken (8 bytes), nonce, valid (4 bytes), payer, source, receiver       *)
(* ([x, odd]), memo (bytes).  A delegation has no token or amount.           *)
EXTENDS RoInput
Input(p) == [fields |-> << p.payer.x, p.source.x, p.receiver.x >>,
             bits |-> Cat(<< BitsOf(p.fee), BitsOf(p.feeToken), Flag(p.payer.odd), BitsOf(p.nonce), BitsOf(p.valid), BitsOf(p.memo),
                             << 0, 0, IF p.kind = "pay" THEN 0 ELSE 1 >>,
                             Flag(p.source.odd), Flag(p.receiver.odd),
                             BitsOf(IF p.kind = "pay" THEN p.token ELSE Low(1, 8)),
                             BitsOf(IF p.kind = "pay" THEN p.amount ELSE Low(0, 8)),
                             << 0 >> >>)]
Domain(net) == IF net = "mainnet" THEN "MinaSignatureMainnet" ELSE "CodaSignature"
(* idealised signatures: a value that nothing but signing that input by that *)
(* key for that network yields.  Keys 1.. are on the curve, key 0 is not.    *)
Sig(net, key, odd, p) == [dom |-> Domain(net), key |-> key, odd |-> odd, in |-> Input(p)]
Sign(net, key, p) == [payload |-> p, key |-> key, odd |-> FALSE, sig |-> Sig(net, key, FALSE, p), s |-> TRUE]
(* odd: the key's parity was flipped; s: the signature's scalar is the one made *)
Verify(net, c) == c.key # 0 /\ c.s /\ c.sig = Sig(net, c.key, c.odd, c.payload)
(* a block is valid if all commands of both parts are *)
VerifyBlock(net, two, one) == \A l \in {two, one} : \A i \in 1..Len(l) : Verify(net, l[i])
(* memos: tag, length, text, padding *)
Memo(text) == << 1, Len(text) >> \o text \o [i \in 1..(32 - Len(text)) |-> 0]
MemoText(m) == IF Len(m) < 2 THEN << >>
               ELSE SubSeq(m, 3, IF m[2] + 2 < Len(m) THEN m[2] + 2 ELSE Len(m))
(* what the builder makes of a transfer: options is a function from the      *)
(* names of the options used to their values                                 *)
Transfer(from, to, amount, fee, nonce, o) ==
  LET Opt(n, d) == IF n \in DOMAIN o THEN o[n] ELSE d IN
  [kind |-> "pay", fee |-> fee, feeToken |-> Opt("feeToken", Low(1, 8)), payer |-> Opt("payer", from), nonce |-> nonce,
   valid |-> Opt("valid", Max(4)), memo |-> Opt("memo", Memo(<< >>)), source |-> from, receiver |-> to,
   token |-> Opt("token", Low(1, 8)), amount |-> amount]
=============================================================================

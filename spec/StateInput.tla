----------------------------- MODULE StateInput -----------------------------
(* What is hashed: the random oracle inputs of protocol states and accounts. *)
(* Legacy inputs list field elements and bits; chunked ones list field       *)
(* elements and packed values, which are then gathered into field elements,  *)
(* the earlier value in the higher bits, as many as fit below 255 bits.      *)
EXTENDS RoInput, SequencesExt
(* items: f - a field element, b - a packed value of that many bits (least   *)
(* significant first).  Bits of a digest are written as 100 + position.      *)
Fd(v) == << [t |-> "f", v |-> v] >>
Pk(bits) == << [t |-> "b", v |-> bits] >>
Digest == [i \in 1..256 |-> 99 + i]
Singles(bits) == [i \in 1..Len(bits) |-> [t |-> "b", v |-> << bits[i] >>]]
Num(bs) == Pk(BitsOf(bs))
Bool(b) == Pk(Flag(b))
Key(k) == Fd(k.x) \o Bool(k.odd)
(* all of a short VRF output; of a full one all but the three highest bits *)
Vrf(v) == Singles(IF Len(v) <= 31 THEN BitsOf(v) ELSE BitsOf(SubSeq(v, 1, 31)) \o SubSeq(BitsOf(<< v[32] >>), 1, 5))
Constants(c) == Num(c.k) \o Num(c.delta) \o Num(c.spe) \o Num(c.spsw) \o Num(c.genesis_ts)
Epoch(e) == Fd(e.seed) \o Fd(e.start) \o Num(e.length) \o Fd(e.hash) \o Num(e.total) \o Fd(e.lock)
Consensus(s) == Num(s.height) \o Num(s.epoch_count) \o Num(s.mwd) \o Cat([i \in 1..Len(s.windows) |-> Num(s.windows[i])])
  \o Vrf(s.vrf) \o Num(s.total) \o Num(s.slot) \o Num(s.slot_spe) \o Num(s.since_genesis) \o Bool(s.ancestor) \o Bool(s.supercharge)
  \o Epoch(s.staking) \o Epoch(s.next) \o Key(s.winner) \o Key(s.creator) \o Key(s.receiver)
Staged(s) == Singles(Digest) \o Fd(s.pc_hash)
Local(l) == Fd(l.stack_frame) \o Fd(l.call_stack) \o Fd(l.commitment) \o Fd(l.full_commitment) \o Fd(l.token) \o Num(l.excess) \o Bool(l.positive)
  \o Fd(l.ledger) \o Num(l.party) \o Bool(l.success)
LegacyChain(s) == Staged(s) \o Fd(s.snarked) \o Fd(s.genesis) \o Num(s.token) \o Num(s.date)
BerkeleyChain(s) == Staged(s) \o Fd(s.genesis) \o Fd(s.snarked) \o Local(s.local) \o Num(s.date) \o Singles(BitsOf(s.body))
Body(net, s) == Constants(s.constants) \o Fd(s.genesis_state) \o (IF net = "legacy" THEN LegacyChain(s) ELSE BerkeleyChain(s)) \o Consensus(s)
AuthBits(a) == CASE a = "None" -> << 1, 0, 1 >> [] a = "Either" -> << 0, 0, 1 >> [] a = "Proof" -> << 0, 0, 0 >>
                 [] a = "Signature" -> << 0, 1, 1 >> [] a = "Both" -> << 0, 0, 0 >> [] a = "Impossible" -> << 1, 1, 0 >>
Timing(t) == IF t.timed THEN Bool(TRUE) \o Num(t.minimum) \o Num(t.cliff) \o Num(t.cliff_amount) \o Num(t.period) \o Num(t.increment)
             ELSE Bool(FALSE) \o Num(Low(0, 8)) \o Num(Low(0, 4)) \o Num(Low(0, 8)) \o Num(Low(1, 4)) \o Num(Low(0, 8))
Account(a) == Fd("uri") \o Fd("zkapp") \o Cat([i \in 1..Len(a.auth) |-> Singles(AuthBits(a.auth[i]))]) \o Timing(a.timing) \o Fd(a.voting)
  \o (IF a.delegated THEN Key(a.delegate) ELSE Key([x |-> 0, odd |-> FALSE])) \o Fd(a.receipt) \o Num(a.nonce) \o Num(a.balance) \o Num(a.symbol)
  \o Pk(Flag(a.owner) \o Flag(a.disabled)) \o Fd(a.token) \o Key(a.key)
(* ---- the two shapes of an input *)
Fields(items) == FoldLeft(LAMBDA a, x : IF x.t = "f" THEN Append(a, x.v) ELSE a, << >>, items)
Bits(items) == FoldLeft(LAMBDA a, x : IF x.t = "b" THEN a \o x.v ELSE a, << >>, items)
Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
(* chunks of bits, the most significant first *)
Gather(a, x) == IF x.t = "f" THEN a
                ELSE IF Len(a.acc) + Len(x.v) < 255 THEN [a EXCEPT !.acc = a.acc \o Rev(x.v)]
                ELSE [out |-> Append(a.out, a.acc), acc |-> Rev(x.v)]
Chunks(items) == LET g == FoldLeft(Gather, [out |-> << >>, acc |-> << >>], items) IN IF g.acc = << >> THEN g.out ELSE Append(g.out, g.acc)
Input(net, items) == IF net = "legacy" THEN [fields |-> Fields(items), bits |-> Bits(items), chunks |-> << >>]
                     ELSE [fields |-> Fields(items), bits |-> << >>, chunks |-> Chunks(items)]
=============================================================================

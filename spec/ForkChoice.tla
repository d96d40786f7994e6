----------------------------- MODULE ForkChoice -----------------------------
(* Chain selection.  A chain is represented by what selection looks at in    *)
(* its top block: len (blockchain length), vrf and hash (ranks of the digest *)
(* of the last VRF output and of the state hash), epoch, slk and nlk (lock   *)
(* checkpoints of the staking and the next epoch), slot and spe (global slot *)
(* and slots per epoch), mwd (minimum window density), win (sub window       *)
(* densities).  Numbers at or above Big stand for u32 values that much below *)
(* the largest one.                                                          *)
EXTENDS Integers, Sequences
CONSTANTS SlotsPerEpoch, SlotsPerSubWindow, SubWindows, GraceEnd
Big == 2147483000                      \* v >= Big is the u32 number v + 2^31
RealMod(v, m) == IF v < Big THEN v % m ELSE ((v % m) + (((2147483647 % m) + 1) % m)) % m
NoChain == [len |-> -1]
Empty(c) == c.len = -1

(* ------------------------------------------------ forks of recent origin *)
EpochSlot(c) == IF c.spe = 0 THEN -1 ELSE RealMod(c.slot, c.spe)
OneAhead(s1, s2) == /\ s1.epoch > 0 /\ s1.epoch - 1 = s2.epoch
                    /\ EpochSlot(s2) >= (SlotsPerEpoch * 2) \div 3
                    /\ s1.slk = s2.nlk
ShortRange(a, b) == IF a.epoch = b.epoch THEN a.slk = b.slk ELSE OneAhead(a, b) \/ OneAhead(b, a)

(* longer chain, then larger VRF digest, then larger state hash *)
Longer(a, b) == \/ a.len > b.len
                \/ a.len = b.len /\ a.vrf > b.vrf
                \/ a.len = b.len /\ a.vrf = b.vrf /\ a.hash > b.hash
SelectLonger(tip, cand) == IF Longer(cand, tip) THEN cand ELSE tip

(* ------------------------------------------------------- long range forks *)
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
RECURSIVE Sum(_)
SatAdd(x, y) == IF (x >= Big /\ y >= Big) \/ x > 2147483647 - y THEN 2147483647 ELSE x + y
Sum(s) == IF s = << >> THEN 0 ELSE SatAdd(s[1], Sum(Tail(s)))
RECURSIVE Shift(_, _, _)
(* zero the n sub windows after the one at (0 based) position i *)
Shift(w, i, n) == IF n = 0 THEN w ELSE LET j == (i + 1) % SubWindows IN Shift([w EXCEPT ![j + 1] = 0], j, n - 1)
(* relative minimum window density of a with respect to b, as built: the     *)
(* window moves by one more than the distance to the later slot, starting at *)
(* slot / SubWindows.  "missing" if a sub window that must be cleared is not *)
(* there.                                                                    *)
ShiftCount(a, b) == Min(Max(a.slot, b.slot) - Max(a.slot - 1, 0), SubWindows)
RelSub(slot) == RealMod(slot, SubWindows * SubWindows) \div SubWindows
Touched(a, n) == { (RelSub(a.slot) + k) % SubWindows : k \in 1..n }
Missing(a, b) == Max(a.slot, b.slot) >= GraceEnd /\ \E j \in Touched(a, ShiftCount(a, b)) : j >= Len(a.win)
Density(a, b) ==
  IF Max(a.slot, b.slot) < GraceEnd THEN a.mwd
  ELSE Min(a.mwd, Sum(Shift(a.win, RelSub(a.slot), ShiftCount(a, b))))

WellFormed(c) == Len(c.win) = SubWindows /\ \A i \in 1..Len(c.win) : c.win[i] <= SlotsPerSubWindow

(* --------------------------------------------------------------- selection *)
(* result of weighing one candidate: [tip, err] *)
Keep(t) == [tip |-> t, err |-> ""]
Fail(t, e) == [tip |-> t, err |-> e]
Weigh(tip, cand) ==
  IF Empty(tip) \/ Empty(cand) THEN Fail(tip, "ConsensusStateNotFound")
  ELSE IF ShortRange(tip, cand) THEN Keep(SelectLonger(tip, cand))
  ELSE IF ~WellFormed(cand) THEN Keep(tip)
  ELSE IF Missing(tip, cand) THEN Fail(tip, "CandidatesMissingSubWindowDensities")
  ELSE LET dt == Density(tip, cand) dc == Density(cand, tip) IN
       IF dc > dt THEN Keep(cand) ELSE IF dc = dt THEN Keep(SelectLonger(tip, cand)) ELSE Keep(tip)
RECURSIVE Choose_(_, _)
Choose_(tip, cs) == IF cs = << >> THEN Keep(tip)
                    ELSE LET r == Weigh(tip, cs[1]) IN IF r.err # "" THEN r ELSE Choose_(r.tip, Tail(cs))
=============================================================================

----------------------------- MODULE MC_Genesis -----------------------------
(* Configurations that differ from the published one in up to MaxOdd parts,  *)
(* and the chains that start with their first blocks.                        *)
EXTENDS Genesis, FiniteSets, FiniteSetsExt, TLC, Json, CSV, IOUtils
CONSTANTS MaxOdd
VARIABLES odd, w, chain, log
vars == << odd, w, chain, log >>
Numbers == { << "constants", f >> : f \in {"k", "slots_per_epoch", "slots_per_sub_window", "delta"} }
      \cup { << e, "epoch_length" >> : e \in {"staking_epoch_data", "next_epoch_data"} }
      \cup { << "consensus_state", f >> : f \in {"blockchain_length", "epoch_count", "min_window_density", "slot_number", "slots_per_epoch", "global_slot_since_genesis"} }
Flags == { << "consensus_state", f >> : f \in {"has_ancestor_in_same_checkpoint_window", "supercharge_coinbase"} }
(* the published block *)
Published == [p \in Parts |->
  CASE p = << "constants", "k" >> -> 290 [] p[2] = "slots_per_epoch" -> 7140 [] p[2] = "slots_per_sub_window" -> 7 [] p = << "constants", "delta" >> -> 0
    [] p = << "staking_epoch_data", "epoch_length" >> -> 1 [] p = << "next_epoch_data", "epoch_length" >> -> 2
    [] p[2] = "blockchain_length" -> 1 [] p[2] = "min_window_density" -> 77
    [] p \in Flags -> 1 [] p \in Numbers -> 0
    [] OTHER -> 0]                            \* what is not a number is as published (0) or something else (1)
Others(p) == IF p \in Flags THEN {0} ELSE IF p \in Numbers THEN {3, 50, 40000000} ELSE {1}
Donor == [p \in Parts |-> IF p \in DOMAIN odd THEN odd[p] ELSE Published[p]]
Windows == {1, 11, 53}
Init == /\ \E s \in UNION { kSubset(n, Parts) : n \in 0..MaxOdd } :
             odd \in { f \in [s -> {0, 1, 3, 50, 40000000}] : \A p \in s : f[p] \in Others(p) }
        /\ w \in Windows /\ chain = << >> /\ log = << >>
        /\ \A p \in DOMAIN odd : odd[p] = 40000000 => w <= 53
Block(name) == CASE name = "first" -> First(Donor, w)
                 [] name = "second" -> [Donor EXCEPT ![<< "consensus_state", "blockchain_length" >>] = 2]
                 [] name = "third" -> [Donor EXCEPT ![<< "consensus_state", "blockchain_length" >>] = 3]
(* the same things are tried with every chain *)
Script == << "first", "first", "third", "second", "first", "third" >>
Push == /\ Len(log) < Len(Script)
        /\ LET n == Script[Len(log) + 1] IN
           LET t == Takes(chain, Block(n)) IN
             /\ chain' = IF t THEN Append(chain, Block(n)) ELSE chain
             /\ log' = Append(log, [push |-> n, ok |-> t, length |-> Height(chain'[Len(chain')]), n |-> Len(chain')])
        /\ UNCHANGED << odd, w >>
Spec == Init /\ [][Push]_vars
F == First(Donor, w)
(* the first block of the configuration a first block tells is that block *)
Settled == First(F, w) = F
(* the published block is the first block of its own configuration *)
Known == DOMAIN odd = {} /\ w = 11 => F = Published
(* what the donor says of its own place in a chain is not in it *)
OwnPlace == \A p \in Ruled : DOMAIN odd \subseteq Ruled => F[p] = First(Published, w)[p]
(* every part of the configuration is told by the block *)
Tells == \A p \in Carried : F[p] = Donor[p]
StartsChain == chain # << >> => chain[1] = F /\ Height(chain[1]) = 1 /\ \A i \in DOMAIN chain : Height(chain[i]) = i
Inv == Settled /\ Known /\ OwnPlace /\ Tells /\ StartsChain
(* its places are those of a first block too *)
ASSUME /\ ToString(First(Published, 11)[<< "consensus_state", "min_window_density" >>]) = Berkeley.min_window_density
       /\ Berkeley.constants[2] = Berkeley.slots_per_epoch /\ Berkeley.constants[5] = Berkeley.timestamp
Export == Len(log) = Len(Script) =>
  CSVWrite("%1$s", << ToJson([odd |-> { << p, odd[p] >> : p \in DOMAIN odd }, w |-> w, first |-> { << p, F[p] >> : p \in Parts }, log |-> log, carried |-> IF DOMAIN odd = {} THEN Carried ELSE {}, berkeley |-> IF DOMAIN odd = {} /\ w = 11 THEN << Berkeley >> ELSE << >>]) >>, IOEnv.OUT)
=============================================================================

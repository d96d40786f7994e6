------------------------------ MODULE Genesis ------------------------------
(* The first block of a network, made of the network's configuration.        *)
(* A configuration is told by a block that names its parts (the donor) and   *)
(* the number of sub windows in a window.                                    *)
EXTENDS Naturals, Sequences
(* what the configuration says, and the block only carries *)
Constants == {"k", "slots_per_epoch", "slots_per_sub_window", "delta", "genesis_state_timestamp"}
Epoch == {"hash", "total_currency", "seed", "start_checkpoint", "lock_checkpoint", "epoch_length"}
Staged == {"ledger_hash", "aux_hash", "pending_coinbase_aux", "pending_coinbase_hash"}
Carried == { << "constants", f >> : f \in Constants } \cup { << e, f >> : e \in {"staking_epoch_data", "next_epoch_data"}, f \in Epoch }
      \cup { << "blockchain_state", f >> : f \in Staged \cup {"snarked_ledger_hash", "genesis_ledger_hash", "snarked_next_available_token", "timestamp"} }
      \cup { << "consensus_state", f >> : f \in {"last_vrf_output", "total_currency", "sub_window_densities", "block_stake_winner", "block_creator", "coinbase_receiver"} }
      \cup { << "state", "genesis_state_hash" >>, << "state", "previous_state_hash" >>, << "block", "protocol_state_proof" >>, << "block", "delta_transition_chain_proof" >> }
(* what is so for every first block *)
Ruled == { << "consensus_state", f >> : f \in {"blockchain_length", "epoch_count", "min_window_density", "slot_number", "slots_per_epoch",
                                             "global_slot_since_genesis", "has_ancestor_in_same_checkpoint_window", "supercharge_coinbase"} }
      \cup { << "block", f >> : f \in {"staged_ledger_diff", "current_protocol_version", "proposed_protocol_version_opt"} }
Parts == Carried \cup Ruled
Plain == 0                                  \* no transactions, the default version, none proposed
Rule(p, d, w) ==
  CASE p[2] = "blockchain_length" -> 1                      \* it is the first
    [] p[2] \in {"epoch_count", "slot_number", "global_slot_since_genesis"} -> 0
    [] p[2] = "slots_per_epoch" -> d[<< "constants", "slots_per_epoch" >>]
    [] p[2] = "min_window_density" -> w * d[<< "constants", "slots_per_sub_window" >>]     \* a window without a gap
    [] p[2] \in {"has_ancestor_in_same_checkpoint_window", "supercharge_coinbase"} -> 1
    [] p \in { << "block", f >> : f \in {"staged_ledger_diff", "current_protocol_version", "proposed_protocol_version_opt"} } -> Plain
First(d, w) == [p \in Parts |-> IF p \in Carried THEN d[p] ELSE Rule(p, d, w)]
Height(b) == b[<< "consensus_state", "blockchain_length" >>]
(* a chain takes up any block first, and then only the successor of its top *)
Takes(chain, b) == chain = << >> \/ Height(b) = Height(chain[Len(chain)]) + 1
(* the first state of the berkeley network, as published *)
BLedger == "jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4"
BState == "3NLUmnTBMCeExeWErijZ2GeLnjLtBgsDjN3qM8M8gcJDtk8k89xf"
BZeroState == "3NK2tkzqqK5spR2sZ7tujjqPksL45M3UUrcA4WhCkeiPtnugyE2x"
BKey == "B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg"
BTotal == "1013238001000001000"
BTime == "1655755201000"
Berkeley ==
  [previous_state_hash |-> BState, genesis_state_hash |-> BState,
   staged_ledger_hash |-> BLedger, genesis_ledger_hash |-> BLedger, registers_ledger |-> BLedger,
   aux_hash |-> "UDRUFHSvxUAtV8sh7gzMVPqpbd46roG1wzWR6dYvB6RunPihom",
   pending_coinbase_aux |-> "WAAeUjUnP9Q2JiabhJzJozcjiEmkZe8ob4cfFKSuq6pQSNmHh7",
   pending_coinbase_hash |-> "2n27mUhCEctJbiZQdrk3kxYc7DVHvJVDErjXrjNs7jnP3HMLKtuN",
   local_fields |-> << "2F99BCFB0AA7F48C1888DA5A67196A2410FB084CD2DB1AF5216C5122AEBC054", "0", "0", "0" >>,
   local_state |-> << "1", "0", "true", "true", "true", "0", "0" >>,
   timestamp |-> BTime, body_reference |-> "36bda176656cc3be96c3d317db7b4ac06fdbc7f4eedcd6efdd20e28143d67421",
   blockchain_length |-> "1", epoch_count |-> "0", min_window_density |-> "77", sub_window_densities |-> "1 7 7 7 7 7 7 7 7 7 7",
   last_vrf_output |-> "OruOTtGM3tJL3jM0GHtCzKyugvWT0ZP7VckspHX8_g8=", total_currency |-> BTotal,
   slot_number |-> "0", slots_per_epoch |-> "7140", global_slot_since_genesis |-> "0",
   has_ancestor_in_same_checkpoint_window |-> "true", supercharge_coinbase |-> "true",
   block_stake_winner |-> BKey, block_creator |-> BKey, coinbase_receiver |-> BKey,
   constants |-> << "290", "7140", "7", "0", BTime >>,
   staking |-> << BLedger, BTotal, "2va9BGv9JrLTtrzZttiEMDYw1Zj6a6EHzXjmP9evHDTG3oEquURA", BZeroState, BZeroState, "1" >>,
   next |-> << BLedger, BTotal, "2vc1zQHJx2xN72vaR4YDH31KwFSr5WHSEH2dzcfcq8jxBPcGiJJA", BZeroState, BState, "2" >>]
=============================================================================

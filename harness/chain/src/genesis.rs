//! First blocks of networks, and chains that start with them (spec/Genesis.tla).
use mina_consensus::common::ProtocolStateChain;
use mina_consensus::genesis::*;
use mina_rs_base::external_transition::ExternalTransition;
use mina_rs_base::protocol_state::{ProtocolState, ProtocolStateLegacy};
use mina_rs_base::epoch_data::EpochData;
use mina_crypto::hash::Field;
use mina_serialization_types::BinProtSerializationType;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn block(doc: &J) -> ExternalTransition {
    let b = hex::decode(doc.as_str().unwrap()).unwrap();
    ExternalTransition::try_from_binprot(b.as_slice()).expect("HARNESS donor")
}
fn wire(b: &ExternalTransition) -> J {
    match b.clone().try_into_binprot() {
        Ok(w) => json!(hex::encode(w)),
        Err(e) => json!({"err": e.to_string()}),
    }
}
pub fn genesis(c: &J) -> J {
    match c["net"].as_str() {
        Some("mainnet") => return json!({"ok": true, "first": wire(&ExternalTransition::from_genesis_config(&MAINNET_CONFIG))}),
        Some("devnet") => return json!({"ok": true, "first": wire(&ExternalTransition::from_genesis_config(&DEVNET_CONFIG))}),
        Some(_) => return berkeley(),
        None => {}
    }
    let d = block(&c["doc"]);
    let config = GenesisInitConfig::verif_from_block(&d, c["w"].as_u64().unwrap() as u32);
    let first = ExternalTransition::from_genesis_config(&config);
    let mut ch: ProtocolStateChain<ProtocolStateLegacy> = ProtocolStateChain(vec![]);
    let mut log = vec![];
    for p in c["push"].as_array().unwrap() {
        let s = if p == "first" {
            first.protocol_state.clone()
        } else {
            let mut s = d.protocol_state.clone();
            s.body.consensus_state.blockchain_length = if p == "second" { 2 } else { 3 }.into();
            s
        };
        let ok = match catch_unwind(AssertUnwindSafe(|| ch.push(s.clone()))) {
            Ok(r) => json!(r.is_ok()),
            Err(_) => json!("PANIC"),
        };
        let genesis = ch.genesis_block() == Some(&first.protocol_state);
        let top = ch.top() == Some(&s);
        let slot = (ch.0.len() == 1).then(|| catch_unwind(AssertUnwindSafe(|| ch.epoch_slot())).ok());
        log.push(json!({"ok": ok, "length": ch.length(), "n": ch.0.len(), "genesis": genesis, "top": top,
            "slot": slot.map(|x| json!(x.flatten()))}));
    }
    json!({"ok": true, "first": wire(&first), "log": log})
}
fn epoch(e: &EpochData) -> J {
    json!([e.ledger.hash.to_string(), e.ledger.total_currency.0.to_string(), e.seed.to_string(), e.start_checkpoint.to_string(),
        e.lock_checkpoint.to_string(), e.epoch_length.0.to_string()])
}
fn berkeley() -> J {
    let s = ProtocolState::berkeley();
    let (c, b, k) = (&s.body.consensus_state, &s.body.blockchain_state, &s.body.constants);
    let l = &b.registers.local_state;
    let is = |f: &Field| {
        let mut b: [u8; 32] = f.clone().into();
        b.reverse();
        let t = hex::encode_upper(b);
        let t = t.trim_start_matches('0');
        if t.is_empty() { "0".to_string() } else { t.to_string() }
    };
    json!({"ok": true, "state": {
        "previous_state_hash": s.previous_state_hash.to_string(),
        "genesis_state_hash": s.body.genesis_state_hash.to_string(),
        "staged_ledger_hash": b.staged_ledger_hash.non_snark.ledger_hash.to_string(),
        "aux_hash": b.staged_ledger_hash.non_snark.aux_hash.to_string(),
        "pending_coinbase_aux": b.staged_ledger_hash.non_snark.pending_coinbase_aux.to_string(),
        "pending_coinbase_hash": b.staged_ledger_hash.pending_coinbase_hash.to_string(),
        "genesis_ledger_hash": b.genesis_ledger_hash.to_string(),
        "registers_ledger": b.registers.ledger.to_string(),
        "local_fields": [is(&l.stack_frame), is(&l.call_stack), is(&l.transaction_commitment), is(&l.full_transaction_commitment)],
        "local_state": [l.token_id.0.to_string(), l.excess.0.to_string(), l.excess.1.to_string(), (l.ledger == Default::default()).to_string(),
            l.success.to_string(), l.party_index.0.to_string(), l.failure_status_tbl.len().to_string()],
        "timestamp": b.timestamp.0.to_string(),
        "body_reference": hex::encode(&b.body_reference.0),
        "blockchain_length": c.blockchain_length.0.to_string(),
        "epoch_count": c.epoch_count.0.to_string(),
        "min_window_density": c.min_window_density.0.to_string(),
        "sub_window_densities": c.sub_window_densities.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(" "),
        "last_vrf_output": c.last_vrf_output.to_string(),
        "total_currency": c.total_currency.0.to_string(),
        "slot_number": c.curr_global_slot.slot_number.0.to_string(),
        "slots_per_epoch": c.curr_global_slot.slots_per_epoch.0.to_string(),
        "global_slot_since_genesis": c.global_slot_since_genesis.0.to_string(),
        "has_ancestor_in_same_checkpoint_window": c.has_ancestor_in_same_checkpoint_window.to_string(),
        "supercharge_coinbase": c.supercharge_coinbase.to_string(),
        "block_stake_winner": c.block_stake_winner.into_address(),
        "block_creator": c.block_creator.into_address(),
        "coinbase_receiver": c.coinbase_receiver.into_address(),
        "constants": [k.k.0.to_string(), k.slots_per_epoch.0.to_string(), k.slots_per_sub_window.0.to_string(), k.delta.0.to_string(),
            k.genesis_state_timestamp.0.to_string()],
        "staking": epoch(&c.staking_epoch_data), "next": epoch(&c.next_epoch_data),
    }})
}

//! Documents of the GraphQL API (spec/MC_GraphQl.tla).
use mina_crypto::hash::*;
use mina_rs_base::account::*;
use mina_rs_base::epoch_data::EpochData;
use mina_rs_base::from_graphql_json::FromGraphQLJson;
use mina_rs_base::protocol_state::ProtocolState;
use mina_serialization_types::v1::HashV1;
use proof_systems::mina_signer::{CompressedPubKey, Keypair};
use serde_json::{json, Map, Value as J};

fn h<T: Clone + Into<HashV1>>(x: &T) -> J {
    let v: HashV1 = x.clone().into();
    json!(hex::encode(v.t))
}
fn k(x: &CompressedPubKey) -> J {
    json!(x.clone().into_address())
}
fn n(x: impl Into<u64>) -> J {
    json!(x.into().to_string())
}
fn epoch(m: &mut Map<String, J>, p: &str, e: &EpochData) {
    m.insert(format!("{p}.ledger.hash"), h(&e.ledger.hash));
    m.insert(format!("{p}.ledger.total"), n(e.ledger.total_currency.0));
    m.insert(format!("{p}.seed"), h(&e.seed));
    m.insert(format!("{p}.start"), h(&e.start_checkpoint));
    m.insert(format!("{p}.lock"), h(&e.lock_checkpoint));
    m.insert(format!("{p}.length"), n(e.epoch_length.0));
}
pub fn state(s: &ProtocolState) -> J {
    let c = &s.body.consensus_state;
    let b = &s.body.blockchain_state;
    let mut m = json!({
        "previous": h(&s.previous_state_hash),
        "height": n(c.blockchain_length.0), "epoch_count": n(c.epoch_count.0), "mwd": n(c.min_window_density.0),
        "vrf": hex::encode(&c.last_vrf_output.0), "total": n(c.total_currency.0), "slot": n(c.curr_global_slot.slot_number.0),
        "since_genesis": n(c.global_slot_since_genesis.0), "ancestor": c.has_ancestor_in_same_checkpoint_window,
        "winner": k(&c.block_stake_winner), "creator": k(&c.block_creator), "receiver": k(&c.coinbase_receiver),
        "supercharge": c.supercharge_coinbase,
        "staged": h(&b.staged_ledger_hash.non_snark.ledger_hash), "aux": hex::encode(&b.staged_ledger_hash.non_snark.aux_hash.0),
        "pc_aux": hex::encode(&b.staged_ledger_hash.non_snark.pending_coinbase_aux.0), "pc_hash": h(&b.staged_ledger_hash.pending_coinbase_hash),
        "genesis": h(&b.genesis_ledger_hash), "snarked": h(&b.registers.ledger),
        "date": n(b.timestamp.0), "body": hex::encode(b.body_reference.0),
        // not in the documents: fixed
        "spe": n(c.curr_global_slot.slots_per_epoch.0), "windows": c.sub_window_densities.iter().map(|x| x.0).collect::<Vec<_>>(),
        "genesis_state": h(&s.body.genesis_state_hash), "constants": s.body.constants == Default::default(),
        "local": b.registers.local_state == Default::default(),
    });
    let o = m.as_object_mut().unwrap();
    epoch(o, "staking", &c.staking_epoch_data);
    epoch(o, "next", &c.next_epoch_data);
    m
}
fn account(a: &Account) -> J {
    let auth = |x: &AuthRequired| json!(format!("{x:?}"));
    let p = &a.permissions;
    let (owner, disabled) = match a.token_permissions {
        TokenPermissions::TokenOwned { disable_new_accounts } => (true, disable_new_accounts),
        TokenPermissions::NotOwned { account_disabled } => (false, account_disabled),
    };
    let mut m = json!({
        "key": k(&a.public_key), "token": n(a.token_id.0), "balance": n(a.balance.0), "owner": owner, "disabled": disabled,
        "nonce": n(a.nonce.0), "receipt": h(&a.receipt_chain_hash), "voting": h(&a.voting_for),
        "delegate": a.delegate.as_ref().map(k), "timing": "untimed", "zkapp": a.zkapp.is_some() || a.zkapp_uri.is_some(),
        "auth.editState": auth(&p.edit_state), "auth.send": auth(&p.send), "auth.receive": auth(&p.receive), "auth.setDelegate": auth(&p.set_delegate),
        "auth.setPermissions": auth(&p.set_permissions), "auth.setVerificationKey": auth(&p.set_verification_key),
        "auth.setZkappUri": auth(&p.set_zkapp_uri), "auth.editSequenceState": auth(&p.edit_sequence_state),
        "auth.setTokenSymbol": auth(&p.set_token_symbol), "auth.incrementNonce": auth(&p.increment_nonce), "auth.setVotingFor": auth(&p.set_voting_for),
    });
    if let Timing::Timed(t) = &a.timing {
        m["timing"] = json!("timed");
        m["timing.initialMinimumBalance"] = n(t.initial_minimum_balance.0);
        m["timing.cliffTime"] = n(t.cliff_time.0);
        m["timing.cliffAmount"] = n(t.cliff_amount.0);
        m["timing.vestingPeriod"] = n(t.vesting_period.0);
        m["timing.vestingIncrement"] = n(t.vesting_increment.0);
    }
    m
}
pub fn graphql(c: &J) -> J {
    let d = &c["json"];
    let r = if c["mode"] == "state" { ProtocolState::from_graphql_json(d).map(|s| state(&s)) } else { Account::from_graphql_json(d).map(|a| account(&a)) };
    match r {
        Ok(x) => json!({"ok": true, "out": x}),
        Err(_) => json!({"ok": true, "out": null}),
    }
}
/// addresses of n keys
pub fn keys(c: &J) -> J {
    json!({"ok": true, "out": (0..c["n"].as_u64().unwrap()).map(|n| Keypair::from_hex(&format!("{:064x}", 0x9100 + n)).unwrap().get_address()).collect::<Vec<_>>()})
}

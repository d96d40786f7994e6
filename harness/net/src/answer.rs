//! Answers to block requests (spec/MC_Answer.tla).
use crate::processor::*;
use mina_merkle::*;
use serde_json::{json, Value as J};

fn dec(x: proof_systems::mina_hasher::Fp) -> J {
    let b: ark_ff::BigInteger256 = x.into();
    let mut n = num::BigUint::from(0u8);
    for l in b.0.iter().rev() {
        n = (n << 64usize) + *l;
    }
    json!(n.to_string())
}
pub fn answer(c: &J) -> J {
    let a = ProtocolStateWithSparseMerkleLedger::try_from(&c["json"]);
    let b = ProtocolStateWithSparseMerkleLedger::try_from(c["json"].clone());
    assert_eq!(a.is_ok(), b.is_ok(), "by value and by reference");
    match a {
        Err(_) => json!({"ok": true, "out": null}),
        Ok(x) => json!({"ok": true, "out": {"state": crate::graphql::state(&x.0), "proofs": x.1.iter().map(|p| json!({
            "index": p.index, "leaf": dec(DummyHasher::hash(&p.item, MerkleTreeNodeMetadata::new(0, 1))),
            "peers": p.peer_indices, "hashes": p.peer_hashes.iter().map(|h| h.map(dec)).collect::<Vec<_>>()})).collect::<Vec<_>>()}}),
    }
}

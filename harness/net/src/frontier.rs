//! Adds blocks to the transition frontier (spec/MC_Frontier.tla).
use crate::command;
use crate::fork::{cs, Make};
use crate::processor::*;
use mina_merkle::*;
use mina_rs_base::types::*;
use serde_json::{json, Value as J};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::pin;
use std::task::{Context, Poll};

fn now<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(&crate::schedule::futures_noop())) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("HARNESS pending"),
    }
}
/// graphql response with the proofs of n accounts, made from a seed
fn response(seed: u64) -> J {
    let mut o = json!({"bestChain": [{"protocolState": graphql_state()}]});
    for n in 0..(1 + seed % 3) {
        let a = mina_signer_key(n);
        o[a] = json!({"leafHash": format!("{}", 1000 * seed + n),
            "merklePath": (0..3).map(|i| if (seed + n + i) % 2 == 0 { json!({"left": format!("{}", seed * 100 + i), "right": null}) }
                                        else { json!({"left": null, "right": format!("{}", seed * 100 + i)}) }).collect::<Vec<_>>()});
    }
    o
}
fn mina_signer_key(n: u64) -> String {
    proof_systems::mina_signer::Keypair::from_hex(&format!("{:064x}", 0x7000 + n)).unwrap().get_address()
}
pub fn graphql_state() -> J {
    let e = json!({"epochLength": "2", "lockCheckpoint": "3NK7nrZPxZ1vQRzNBnAfK5coYmdgygEHbRQ1GTT8f3o6b4dFWchL",
        "seed": "2vafPBQ3zQdHUEDDnFGuiNvJz7s2MhTLJgSzQSnu5fnZavT27cms", "startCheckpoint": "3NK2tkzqqK5spR2sZ7tujjqPksL45M3UUrcA4WhCkeiPtnugyE2x",
        "ledger": {"hash": "jwCg94ZjPhMA49CxbWySzs1uBPTGDwVn9gAa3XmiX43a9aJiV4T", "totalCurrency": "1013238001000001000"}});
    let k = "B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg";
    json!({"previousStateHash": "3NK7nrZPxZ1vQRzNBnAfK5coYmdgygEHbRQ1GTT8f3o6b4dFWchL",
        "consensusState": {"blockCreator": k, "blockHeight": "1", "blockStakeWinner": k, "epoch": "0", "blockchainLength": "1", "coinbaseReceiever": k,
            "epochCount": "0", "hasAncestorInSameCheckpointWindow": true, "lastVrfOutput": "48H9Qk4D6RzS9kAJQX9HCDjiJ5qLiopxgxaS6xbDCWNaKQMQ9Y4C",
            "minWindowDensity": "77", "slot": "0", "slotSinceGenesis": "0", "superchargedCoinbase": true, "totalCurrency": "1013238001000001000",
            "nextEpochData": e, "stakingEpochData": e},
        "blockchainState": {"bodyReference": "36bda176656cc3be96c3d317db7b4ac06fdbc7f4eedcd6efdd20e28143d67421", "date": "1655755201000",
            "snarkedLedgerHash": "jwCg94ZjPhMA49CxbWySzs1uBPTGDwVn9gAa3XmiX43a9aJiV4T", "stagedLedgerAuxHash": "UDRUFHSvxUAtV8sh7gzMVPqpbd46roG1wzWR6dYvB6RunPihom",
            "stagedLedgerHash": "jwCg94ZjPhMA49CxbWySzs1uBPTGDwVn9gAa3XmiX43a9aJiV4T", "stagedLedgerPendingCoinbaseAux": "WAAeUjUnP9Q2JiabhJzJozcjiEmkZe8ob4cfFKSuq6pQSNmHh7",
            "stagedLedgerPendingCoinbaseHash": "2mzvU1MA5JjDUrLsKk6KFFj4CPn6bnHjN5Fi779U96JUbZNwoTvF", "stagedLedgerProofEmitted": false,
            "utcDate": "1655755201000", "genesisLedgerHash": "jwCg94ZjPhMA49CxbWySzs1uBPTGDwVn9gAa3XmiX43a9aJiV4T"}})
}
/// the proofs of a response, and how they look
fn made(seed: u64) -> (Vec<MerkleProofBerkeleyNet>, Vec<J>) {
    thread_local! { static MADE: std::cell::RefCell<std::collections::HashMap<u64, (Vec<MerkleProofBerkeleyNet>, Vec<J>)>> = Default::default() }
    MADE.with(|m| {
        let mut m = m.borrow_mut();
        let (p, s) = m.entry(seed).or_insert_with(|| {
            let x = ProtocolStateWithSparseMerkleLedger::try_from(response(seed)).expect("HARNESS response");
            let s = x.1.iter().map(show).collect();
            (x.1, s)
        });
        (p.iter().map(|p| MerkleProofBerkeleyNet::new(p.index, p.item.clone(), p.peer_indices.clone(), p.peer_hashes.clone())).collect(), s.clone())
    })
}
fn show(p: &MerkleProofBerkeleyNet) -> J {
    json!([p.index, format!("{:?}", p.item), p.peer_indices, format!("{:?}", p.peer_hashes)])
}
pub fn frontier(c: &J) -> J {
    let log = c["log"].as_array().unwrap();
    if c["ty"] == "legacy" {
        let mut f = NaiveTransitionFrontier::<ProtocolStateLegacy, MerkleProofMainnet>::new();
        let mut sent: Vec<(i64, ProtocolStateLegacy)> = vec![];
        run(log, |e, k| {
            let b = &e["block"];
            let s = ProtocolStateLegacy::make(cs(b), b, 0);
            sent.push((b["id"].as_i64().unwrap(), s.clone()));
            // valid blocks have no commands or valid ones; invalid ones one that is not in different places
            let parts = if e["v"] == 1 {
                [json!({"two": [], "one": ["none"]}), json!({"two": ["ok", "del"], "one": ["none"]}), json!({"two": ["ok"], "one": ["ok", "del"]})][k % 3].clone()
            } else {
                [json!({"two": ["ok", "amount"], "one": ["none"]}), json!({"two": ["ok"], "one": ["del", "net"]}), json!({"two": ["offcurve"], "one": []}),
                 json!({"two": ["net"], "one": ["ok"]}), json!({"two": [], "one": ["key"]})][(k + sent.len()) % 5].clone()
            };
            let mut d = c.clone();
            d["two"] = parts["two"].clone();
            d["one"] = parts["one"].clone();
            let mut t = command::transition(command::diff(&d));
            t.protocol_state = s;
            let r = now(f.add_block(t)).is_err();
            let at = match f.get_best_chain().0.as_slice() {
                [] => 0,
                [b] => sent.iter().find(|x| x.1 == *b).map(|x| x.0).unwrap_or(-1),
                _ => -2,
            };
            json!({"err": r, "best": at, "ledger": f.get_sparse_merkle_ledger().len()})
        })
    } else {
        let mut f = NaiveTransitionFrontier::<ProtocolState, MerkleProofBerkeleyNet>::new();
        let mut sent: Vec<(i64, ProtocolState, Vec<J>)> = vec![];
        run(log, |e, k| {
            let b = &e["block"];
            let s = ProtocolState::make(cs(b), b, 0);
            let (proofs, shown) = made(2 * k as u64 + e["v"].as_u64().unwrap());
            let x = ProtocolStateWithSparseMerkleLedger(s.clone(), proofs);
            sent.push((b["id"].as_i64().unwrap(), s, shown));
            let r = now(f.add_block(x)).is_err();
            let at = match f.get_best_chain().0.as_slice() {
                [] => 0,
                [b] => sent.iter().find(|x| x.1 == *b).map(|x| x.0).unwrap_or(-1),
                _ => -2,
            };
            let l: Vec<J> = f.get_sparse_merkle_ledger().iter().map(show).collect();
            let l = if l.is_empty() { 0 } else { sent.iter().position(|x| x.2 == l).map(|x| x as i64 + 1).unwrap_or(-1) };
            json!({"err": r, "best": at, "ledger": l})
        })
    }
}
fn run(log: &[J], mut step: impl FnMut(&J, usize) -> J) -> J {
    let mut out = vec![];
    for (k, e) in log.iter().enumerate() {
        out.push(catch_unwind(AssertUnwindSafe(|| step(e, k))).unwrap_or_else(|p| {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.contains("HARNESS") { panic!("{m}") }
            json!("PANIC")
        }));
    }
    json!({"ok": true, "out": out})
}

//! Chain selection and chain building (spec/ForkChoice.tla, spec/MC_Chain.tla).
use mina_consensus::common::{ChainSelection, ProtocolStateChain};
use mina_rs_base::consensus_state::{ConsensusState, VrfOutputTruncated};
use mina_rs_base::global_slot::GlobalSlot;
use mina_rs_base::numbers::{GlobalSlotNumber, Length};
use mina_rs_base::protocol_state::{ProtocolConstants, ProtocolState, ProtocolStateHeader, ProtocolStateLegacy};
use proof_systems::mina_hasher::Fp;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

const BIG: i64 = 2147483000;
/// numbers of the specification: at or above Big they stand for u32 values 2^31 higher
pub fn num(j: &J) -> u32 {
    let v = j.as_i64().expect("HARNESS number");
    if v >= BIG {
        (v + (1 << 31)) as u32
    } else {
        v as u32
    }
}
pub fn back(v: u32) -> J {
    let v = v as i64;
    json!(if v >= BIG + (1 << 31) { v - (1 << 31) } else { v })
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Block {
    cs: ConsensusState,
    hash: u64,
    k: i64,
    consts: ProtocolConstants,
}
impl ProtocolStateHeader for Block {
    fn get_height(&self) -> Length {
        self.cs.blockchain_length
    }
    fn min_window_density(&self) -> Length {
        self.cs.min_window_density
    }
    fn sub_window_densities(&self) -> &Vec<Length> {
        &self.cs.sub_window_densities
    }
    fn consensus_state(&self) -> &ConsensusState {
        &self.cs
    }
    fn constants(&self) -> &ProtocolConstants {
        &self.consts
    }
    fn state_hash_fp(&self) -> Fp {
        Fp::from(self.hash)
    }
}

/// VRF outputs whose digests are ordered like the ranks; the raw bytes are ordered the other way
fn vrf(rank: i64) -> VrfOutputTruncated {
    thread_local! { static V: Vec<Vec<u8>> = {
        let dig = |v: &Vec<u8>| VrfOutputTruncated(v.clone()).digest();
        let mut out: Vec<Vec<u8>> = vec![];
        let mut hi = 255u8;
        // ranks 1..=8, descending raw bytes, ascending digests
        for r in 0..8u8 {
            loop {
                let v: Vec<u8> = std::iter::once(hi).chain((0..31).map(|i| r.wrapping_mul(7) ^ i)).collect();
                hi = hi.wrapping_sub(1);
                let d = dig(&v);
                if (d[0] >> 5) == r {
                    out.push(v);
                    break;
                }
            }
        }
        out
    } }
    V.with(|v| VrfOutputTruncated(v[(rank - 1) as usize].clone()))
}

fn state_hash(k: i64) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[3] = k as u8;
    b
}

pub fn cs(c: &J) -> ConsensusState {
    let mut s = ConsensusState::default();
    s.blockchain_length = Length(num(&c["len"]));
    s.epoch_count = Length(num(&c["epoch"]));
    s.min_window_density = Length(num(&c["mwd"]));
    s.sub_window_densities = c["win"].as_array().unwrap().iter().map(|x| Length(num(x))).collect();
    s.last_vrf_output = vrf(c["vrf"].as_i64().unwrap());
    s.curr_global_slot = GlobalSlot {
        slot_number: GlobalSlotNumber(num(&c["slot"])),
        slots_per_epoch: Length(num(&c["spe"])),
    };
    s.staking_epoch_data.lock_checkpoint = state_hash(c["slk"].as_i64().unwrap()).into();
    s.next_epoch_data.lock_checkpoint = state_hash(c["nlk"].as_i64().unwrap()).into();
    // what must not matter
    s.staking_epoch_data.start_checkpoint = state_hash(40 + c["len"].as_i64().unwrap() % 7).into();
    s.next_epoch_data.start_checkpoint = state_hash(50 + c["vrf"].as_i64().unwrap()).into();
    s.staking_epoch_data.epoch_length = Length(c["hash"].as_i64().unwrap() as u32);
    s.global_slot_since_genesis = GlobalSlotNumber(77u32.wrapping_sub(num(&c["slot"])));
    s
}

pub trait Make: ProtocolStateHeader + Clone + PartialEq {
    fn make(cs: ConsensusState, c: &J, k: i64) -> Self;
}
impl Make for Block {
    fn make(cs: ConsensusState, c: &J, k: i64) -> Self {
        Block { cs, hash: c["hash"].as_u64().unwrap_or(0), k, consts: Default::default() }
    }
}
/// the real block types: their hash is made to have the wanted rank
macro_rules! real {
    ($t:ty) => {
        impl Make for $t {
            fn make(cs: ConsensusState, c: &J, _: i64) -> Self {
                let mut b = <$t>::default();
                b.body.consensus_state = cs;
                let want = match c["hash"].as_u64() {
                    Some(w) => w,
                    None => return b,
                };
                for n in 0..1000u32 {
                    let mut h = state_hash(1);
                    h[..4].copy_from_slice(&n.to_le_bytes());
                    b.previous_state_hash = h.into();
                    let x: ark_ff::BigInteger256 = b.state_hash_fp().into();
                    if (x.0[3] >> 60) & 3 == want {
                        return b;
                    }
                }
                panic!("HARNESS no hash of that rank")
            }
        }
    };
}
real!(ProtocolStateLegacy);
real!(ProtocolState);

fn mk<T: Make>(c: &J, k: i64) -> ProtocolStateChain<T> {
    if c.get("empty").is_some() {
        return ProtocolStateChain(vec![]);
    }
    let mut v = vec![];
    // older blocks, which must not matter
    for i in 0..k % 3 {
        let mut s = ConsensusState::default();
        s.blockchain_length = Length(1000 + i as u32);
        s.epoch_count = Length(i as u32 * 3);
        v.push(T::make(s, &json!({"hash": 3}), -1));
    }
    v.push(T::make(cs(c), c, k));
    ProtocolStateChain(v)
}
fn opt<X, E: std::fmt::Debug>(f: impl FnOnce() -> Result<X, E>, j: impl Fn(X) -> J) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => j(x),
        Ok(Err(e)) => json!({"err": format!("{e:?}")}),
        Err(_) => json!({"err": "PANIC"}),
    }
}

pub fn fork(c: &J) -> J {
    match c["ty"].as_str() {
        Some("legacy") => fork_::<ProtocolStateLegacy>(c),
        Some("berkeley") => fork_::<ProtocolState>(c),
        _ => fork_::<Block>(c),
    }
}
fn fork_<T: Make>(c: &J) -> J {
    let tip = mk::<T>(&c["tip"], 0);
    let cands: Vec<_> = c["cands"].as_array().unwrap().iter().enumerate().map(|(i, x)| mk::<T>(x, i as i64 + 1)).collect();
    let mut all = vec![tip.clone()];
    all.extend(cands.iter().cloned());
    let mut t = tip.clone();
    let ans = opt(|| t.select_secure_chain(cands.clone()), |_| json!(""));
    let at = all.iter().position(|x| *x == t).map(|x| x as i64).unwrap_or(-1);
    let mut o = json!({"ok": true, "sel": ans, "at": at});
    if cands.len() == 1 {
        let a = &all[0];
        let b = &all[1];
        o["short"] = json!([opt(|| a.is_short_range(b), |x| json!(x)), opt(|| b.is_short_range(a), |x| json!(x))]);
        o["dens"] = json!([
            opt(|| a.relative_min_window_density(b), back),
            opt(|| b.relative_min_window_density(a), back)
        ]);
        let mut t = tip;
        let e = opt(|| t.select_longer_chain(cands[0].clone()), |_| json!(""));
        o["longer"] = json!({"sel": e, "at": all.iter().position(|x| *x == t)});
    }
    o
}

/// pushes blocks one after the other and reports what the chain says about itself
pub fn chain(c: &J) -> J {
    match c["ty"].as_str() {
        Some("legacy") => chain_::<ProtocolStateLegacy>(c),
        Some("berkeley") => chain_::<ProtocolState>(c),
        _ => chain_::<Block>(c),
    }
}
fn chain_<T: Make>(c: &J) -> J {
    let mut ch: ProtocolStateChain<T> = ProtocolStateChain(vec![]);
    let mut blocks: Vec<T> = vec![];
    let mut out = vec![];
    for (k, b) in c["log"].as_array().unwrap().iter().enumerate() {
        let mut s = ConsensusState::default();
        s.blockchain_length = Length(num(&b["len"]));
        s.curr_global_slot = GlobalSlot {
            slot_number: GlobalSlotNumber(num(&b["at"][0])),
            slots_per_epoch: Length(num(&b["at"][1])),
        };
        s.last_vrf_output = vrf(1 + k as i64 % 8);
        s.min_window_density = Length(k as u32);
        s.sub_window_densities = vec![Length(k as u32); 11];
        let b = T::make(s, &json!({}), k as i64);
        blocks.push(b.clone());
        let ans = opt(|| ch.push(b), |_| json!(true));
        let find = |x: Option<&T>| json!(x.and_then(|x| blocks.iter().position(|b| b == x)).map(|x| x as i64).unwrap_or(-1));
        // everything derived from the top is that of the top
        let agree = match ch.top() {
            None => ch.consensus_state().is_none() && ch.global_slot().is_none() && ch.state_hash().is_none() && ch.last_vrf_hash_digest().is_err(),
            Some(t) => {
                ch.consensus_state() == Some(t.consensus_state())
                    && ch.global_slot() == Some(&t.consensus_state().curr_global_slot)
                    && ch.state_hash() == Some(t.state_hash_fp())
                    && ch.last_vrf_hash_digest().ok() == Some(hex::encode(t.consensus_state().last_vrf_output.digest()))
                    && t.get_height() == t.consensus_state().blockchain_length
                    && t.min_window_density() == t.consensus_state().min_window_density
                    && t.sub_window_densities() == &t.consensus_state().sub_window_densities
            }
        };
        let slot = match catch_unwind(AssertUnwindSafe(|| ch.epoch_slot())) {
            Ok(Some(s)) => back(s),
            Ok(None) => json!(-1),
            Err(_) => json!("PANIC"),
        };
        out.push(json!({"ok": ans, "agree": agree, "view": {
            "n": ch.0.len(), "length": back(ch.length() as u32), "top": find(ch.top()), "genesis": find(ch.genesis_block()), "slot": slot}}));
    }
    json!({"ok": true, "out": out})
}

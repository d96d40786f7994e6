//! Random oracle inputs of protocol states and accounts (spec/StateInput.tla).
use crate::command::{bytes, fp, input, pk, u32_, u64_};
use mina_crypto::hash::*;
use mina_rs_base::account::timing::TimedData;
use mina_rs_base::account::*;
use mina_rs_base::blockchain_state::*;
use mina_rs_base::blockchain_state_registers::*;
use mina_rs_base::consensus_state::{ConsensusState, VrfOutputTruncated};
use mina_rs_base::epoch_data::{EpochData, EpochLedger};
use mina_rs_base::global_slot::GlobalSlot;
use mina_rs_base::numbers::*;
use mina_rs_base::protocol_state::*;
use proof_systems::mina_hasher::{create_kimchi, oracle, Fp, Hashable, Hasher, ROInput};
use proof_systems::o1_utils::FieldHelpers;
use serde_json::{json, Value as J};
use std::str::FromStr;

fn f(j: &J) -> [u8; 32] {
    // a text is the bytes of a hash as they are
    let v: Vec<u8> = if let Some(t) = j.as_str() { hex::decode(t).unwrap() } else { fp(j).to_bytes() };
    v.try_into().unwrap()
}
fn h<T: From<mina_serialization_types::v1::HashV1>>(j: &J) -> T {
    mina_serialization_types::v1::HashV1::new(f(j)).into()
}
fn b(j: &J) -> bool {
    j.as_bool().expect("HARNESS bool")
}
fn epoch(j: &J) -> EpochData {
    EpochData {
        ledger: EpochLedger { hash: h(&j["hash"]), total_currency: Amount(u64_(&j["total"])) },
        seed: h(&j["seed"]),
        start_checkpoint: h(&j["start"]),
        lock_checkpoint: h(&j["lock"]),
        epoch_length: Length(u32_(&j["length"])),
    }
}
fn consensus(s: &J) -> ConsensusState {
    ConsensusState {
        blockchain_length: Length(u32_(&s["height"])),
        epoch_count: Length(u32_(&s["epoch_count"])),
        min_window_density: Length(u32_(&s["mwd"])),
        sub_window_densities: s["windows"].as_array().unwrap().iter().map(|x| Length(u32_(x))).collect(),
        last_vrf_output: VrfOutputTruncated(bytes(&s["vrf"])),
        total_currency: Amount(u64_(&s["total"])),
        curr_global_slot: GlobalSlot { slot_number: GlobalSlotNumber(u32_(&s["slot"])), slots_per_epoch: Length(u32_(&s["slot_spe"])) },
        global_slot_since_genesis: GlobalSlotNumber(u32_(&s["since_genesis"])),
        staking_epoch_data: epoch(&s["staking"]),
        next_epoch_data: epoch(&s["next"]),
        has_ancestor_in_same_checkpoint_window: b(&s["ancestor"]),
        block_stake_winner: pk(&s["winner"]),
        block_creator: pk(&s["creator"]),
        coinbase_receiver: pk(&s["receiver"]),
        supercharge_coinbase: b(&s["supercharge"]),
    }
}
fn constants(c: &J) -> ProtocolConstants {
    ProtocolConstants {
        k: Length(u32_(&c["k"])),
        slots_per_epoch: Length(u32_(&c["spe"])),
        slots_per_sub_window: Length(u32_(&c["spsw"])),
        delta: Length(u32_(&c["delta"])),
        genesis_state_timestamp: BlockTime(u64_(&c["genesis_ts"])),
    }
}
fn staged(s: &J) -> StagedLedgerHash {
    StagedLedgerHash {
        non_snark: NonSnarkStagedLedgerHash {
            ledger_hash: h(&s["staged"]),
            aux_hash: AuxHash(bytes(&s["aux"])),
            pending_coinbase_aux: PendingCoinbaseAuxHash(bytes(&s["pc_aux"])),
        },
        pending_coinbase_hash: h(&s["pc_hash"]),
    }
}
pub fn legacy(s: &J) -> ProtocolStateLegacy {
    ProtocolStateLegacy {
        previous_state_hash: h(&s["previous"]),
        body: ProtocolStateBodyLegacy {
            genesis_state_hash: h(&s["genesis_state"]),
            blockchain_state: BlockchainStateLegacy {
                staged_ledger_hash: staged(s),
                snarked_ledger_hash: h(&s["snarked"]),
                genesis_ledger_hash: h(&s["genesis"]),
                snarked_next_available_token: TokenId(u64_(&s["token"])),
                timestamp: BlockTime(u64_(&s["date"])),
            },
            consensus_state: consensus(s),
            constants: constants(&s["constants"]),
        },
    }
}
pub fn berkeley(s: &J) -> ProtocolState {
    let l = &s["local"];
    ProtocolState {
        previous_state_hash: h(&s["previous"]),
        body: ProtocolStateBody {
            genesis_state_hash: h(&s["genesis_state"]),
            blockchain_state: BlockchainState {
                staged_ledger_hash: staged(s),
                genesis_ledger_hash: h(&s["genesis"]),
                registers: BlockchainStateRegisters {
                    ledger: h(&s["snarked"]),
                    pending_coinbase_stack: (),
                    local_state: BlockchainStateRegistersLocalState {
                        stack_frame: f(&l["stack_frame"]).into(),
                        call_stack: f(&l["call_stack"]).into(),
                        transaction_commitment: f(&l["commitment"]).into(),
                        full_transaction_commitment: f(&l["full_commitment"]).into(),
                        token_id: TokenId(u64_(&l["token"])),
                        excess: SignedAmount(u64_(&l["excess"]), b(&l["positive"])),
                        ledger: h(&l["ledger"]),
                        success: b(&l["success"]),
                        party_index: MinaIndex(u32_(&l["party"])),
                        failure_status_tbl: vec![],
                    },
                },
                timestamp: BlockTime(u64_(&s["date"])),
                body_reference: BodyReference(bytes(&s["body"]).try_into().unwrap()),
            },
            consensus_state: consensus(s),
            constants: constants(&s["constants"]),
        },
    }
}
fn account(a: &J) -> Account {
    let p: Vec<AuthRequired> = a["auth"].as_array().unwrap().iter().map(|x| AuthRequired::from_str(x.as_str().unwrap()).unwrap()).collect();
    let t = &a["timing"];
    let mut symbol = [7u8; 32];
    symbol[..6].copy_from_slice(&bytes(&a["symbol"]));
    Account {
        public_key: pk(&a["key"]),
        token_id: TokenId(u64_(&a["token"])),
        balance: Amount(u64_(&a["balance"])),
        token_permissions: if b(&a["owner"]) {
            TokenPermissions::TokenOwned { disable_new_accounts: b(&a["disabled"]) }
        } else {
            TokenPermissions::NotOwned { account_disabled: b(&a["disabled"]) }
        },
        token_symbol: symbol.into(),
        nonce: AccountNonce(u32_(&a["nonce"])),
        receipt_chain_hash: h(&a["receipt"]),
        delegate: b(&a["delegated"]).then(|| pk(&a["delegate"])),
        voting_for: h(&a["voting"]),
        timing: if b(&t["timed"]) {
            Timing::Timed(TimedData {
                initial_minimum_balance: Amount(u64_(&t["minimum"])),
                cliff_time: BlockTime(u32_(&t["cliff"]) as u64),
                cliff_amount: Amount(u64_(&t["cliff_amount"])),
                vesting_period: BlockTime(u32_(&t["period"]) as u64),
                vesting_increment: Amount(u64_(&t["increment"])),
            })
        } else {
            Timing::Untimed
        },
        permissions: Permissions {
            edit_state: p[0].clone(),
            send: p[1].clone(),
            receive: p[2].clone(),
            set_delegate: p[3].clone(),
            set_permissions: p[4].clone(),
            set_verification_key: p[5].clone(),
            set_zkapp_uri: p[6].clone(),
            edit_sequence_state: p[7].clone(),
            set_token_symbol: p[8].clone(),
            increment_nonce: p[9].clone(),
            set_voting_for: p[10].clone(),
        },
        zkapp: None,
        zkapp_uri: None,
    }
}
fn x(f: Fp) -> J {
    json!(hex::encode(f.to_bytes()))
}
fn dec(fields: &J) -> ROInput {
    let mut i = ROInput::new();
    for s in fields.as_array().unwrap() {
        i = i.append_field(Fp::from_bytes(&hex::decode(s.as_str().unwrap()).unwrap()).unwrap());
    }
    i
}
/// the input of the body or account, that of the state, and the hashes the oracle gives for them
pub fn stateinput(c: &J) -> J {
    let s = &c["s"];
    let dom = |d: &str| Some(d.to_string());
    match c["net"].as_str().unwrap() {
        "legacy" => {
            let p = legacy(s);
            let (bi, si) = (p.body.to_roinput(), p.to_roinput());
            let h: [u8; 32] = p.state_hash().into();
            json!({"ok": true, "input": input(&p.body), "state": input(&p), "hash": x(p.state_hash_fp()), "bytes": hex::encode(h),
                "trait": x(ProtocolStateHeader::state_hash_fp(&p)),
                "body_oracle": x(oracle("legacy", &dom("CodaProtoStateBody"), &[bi])), "oracle": x(oracle("legacy", &dom("CodaProtoState"), &[si]))})
        }
        "berkeley" => {
            let p = berkeley(s);
            let (bi, si) = (p.body.to_roinput(), p.to_roinput());
            let h: [u8; 32] = p.state_hash().into();
            json!({"ok": true, "input": input(&p.body), "state": input(&p), "hash": x(p.state_hash_fp()), "bytes": hex::encode(h),
                "trait": x(ProtocolStateHeader::state_hash_fp(&p)),
                "body_oracle": x(oracle("kimchi", &dom("CodaProtoStateBody"), &[bi])), "oracle": x(oracle("kimchi", &dom("CodaProtoState"), &[si]))})
        }
        _ => {
            let a = account(s);
            let i = a.to_roinput();
            let mut hasher = create_kimchi(());
            json!({"ok": true, "input": input(&a), "hash": x(hasher.hash(&a)), "oracle": x(oracle("kimchi", &dom("CodaAccount"), &[i])),
                "uri": x(oracle("kimchi", &dom("MinaZkappUri"), &[dec(&c["uri"])])), "zkapp": x(oracle("kimchi", &dom("CodaZkappAccount"), &[dec(&c["zkapp"])]))})
        }
    }
}
/// chunked inputs built item by item, and in two halves
pub fn pack(c: &J) -> J {
    use proof_systems::ChunkedROInput;
    let add = |i: ChunkedROInput, x: &J| {
        let v = &x["v"];
        match x["t"].as_str().unwrap() {
            "f" => i.append_field(fp(&v[0])),
            "u32" => i.append_u32(u32_(v)),
            "u64" => i.append_u64(u64_(v)),
            "bytes" => i.append_bytes(&bytes(v)),
            "bool" => i.append_bool(bytes(v)[0] == 1),
            _ => {
                let mut by = vec![0u8; 32];
                for (k, b) in bytes(v).iter().enumerate() {
                    by[k / 8] |= b << (k % 8);
                }
                i.append_packed(Fp::from_bytes(&by).unwrap(), bytes(v).len() as u32)
            }
        }
    };
    let items = c["items"].as_array().unwrap();
    let all = items.iter().fold(ChunkedROInput::new(), add);
    let k = items.len() / 2;
    let halves = items[..k].iter().fold(ChunkedROInput::new(), add).append(items[k..].iter().fold(ChunkedROInput::new(), add));
    assert!(all == halves, "appending one by one and in halves differ");
    let roi: ROInput = halves.into();
    assert!(roi.bits.is_empty());
    let out: Vec<J> = all.into_fields().into_iter().map(x).collect();
    assert_eq!(out, roi.fields.into_iter().map(x).collect::<Vec<_>>());
    json!({"ok": true, "out": out})
}

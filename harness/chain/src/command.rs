//! Signed commands, blocks of them, the transfer builder and memos (spec/SignedCommand.tla).
use mina_rs_base::external_transition::ExternalTransition;
use mina_rs_base::numbers::*;
use mina_rs_base::staged_ledger_diff::*;
use mina_rs_base::types::*;
use mina_rs_base::user_commands::memo::SignedCommandMemo;
use mina_rs_base::user_commands::signed_command::builder::SignedTransferCommandBuilder;
use mina_rs_base::user_commands::signed_command::{StakeDelegation, SignedCommandPayloadBody};
use mina_rs_base::user_commands::{PaymentPayload, SignedCommand, SignedCommandPayload, SignedCommandPayloadCommon, UserCommand};
use mina_rs_base::verifiable::Verifiable;
use mina_serialization_types::staged_ledger_diff as ser;
use proof_systems::mina_hasher::{Fp, Hashable};
use proof_systems::mina_signer::{self, CompressedPubKey, Keypair, NetworkId, Signature};
use proof_systems::o1_utils::FieldHelpers;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn bytes(j: &J) -> Vec<u8> {
    j.as_array().expect("HARNESS bytes").iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
pub fn u64_(j: &J) -> u64 {
    u64::from_le_bytes(bytes(j).try_into().expect("HARNESS u64"))
}
pub fn u32_(j: &J) -> u32 {
    u32::from_le_bytes(bytes(j).try_into().expect("HARNESS u32"))
}
/// negative numbers count from the modulus
pub fn fp(j: &J) -> Fp {
    let n = j.as_i64().expect("HARNESS field");
    if n < 0 {
        Fp::from(0u64) - Fp::from(-n as u64)
    } else {
        Fp::from(n as u64)
    }
}
pub fn pk(j: &J) -> CompressedPubKey {
    CompressedPubKey { x: fp(&j["x"]), is_odd: j["odd"].as_bool().unwrap() }
}
pub fn input(h: &impl Hashable) -> J {
    let i = h.to_roinput();
    json!({"fields": i.fields.iter().map(|f| hex::encode(f.to_bytes())).collect::<Vec<_>>(),
           "bits": i.bits.iter().map(|b| *b as u8).collect::<Vec<_>>()})
}
fn payload(p: &J) -> SignedCommandPayload {
    let common = SignedCommandPayloadCommon {
        fee: Amount(u64_(&p["fee"])),
        fee_token: TokenId(u64_(&p["feeToken"])),
        fee_payer_pk: pk(&p["payer"]),
        nonce: AccountNonce(u32_(&p["nonce"])),
        valid_until: GlobalSlotNumber(u32_(&p["valid"])),
        memo: SignedCommandMemo(bytes(&p["memo"])),
    };
    let body = if p["kind"] == "pay" {
        SignedCommandPayloadBody::PaymentPayload(PaymentPayload {
            source_pk: pk(&p["source"]),
            receiver_pk: pk(&p["receiver"]),
            token_id: TokenId(u64_(&p["token"])),
            amount: Amount(u64_(&p["amount"])),
        })
    } else {
        SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate {
            delegator: pk(&p["source"]),
            new_delegate: pk(&p["receiver"]),
        })
    };
    SignedCommandPayload { common, body }
}
fn keypair(k: i64) -> Keypair {
    Keypair::from_hex(&format!("{:064x}", 0x1000 + k)).unwrap()
}
/// key 0 is not on the curve
fn key(k: i64) -> CompressedPubKey {
    if k != 0 {
        return keypair(k).public.into_compressed();
    }
    (2u64..)
        .map(|x| CompressedPubKey { x: Fp::from(x), is_odd: false })
        .find(|c| CompressedPubKey::from_address(&c.into_address()).is_err())
        .unwrap()
}
fn net(j: &J) -> NetworkId {
    if j == "mainnet" {
        NetworkId::MAINNET
    } else {
        NetworkId::TESTNET
    }
}
fn verifies(v: &impl Verifiable<mina_signer::Schnorr<SignedCommandPayload>>, n: NetworkId) -> J {
    match catch_unwind(AssertUnwindSafe(|| {
        let mut ctx = mina_signer::create_legacy::<SignedCommandPayload>(n);
        let a = v.verify(&mut ctx);
        // asking again must not change the answer
        (a, v.verify(&mut ctx))
    })) {
        Ok((a, b)) if a == b => json!(a),
        Ok(_) => json!("differs"),
        Err(_) => json!("PANIC"),
    }
}
fn command(signed: &J, c: &J) -> (SignedCommand, bool) {
    let p = payload(&signed["payload"]);
    let k = signed["key"].as_i64().unwrap();
    let kp = keypair(k);
    let mut cmd = p.clone().into_signed_command(kp.clone(), net(&signed["net"]));
    let faithful = cmd.payload == p && cmd.signer == kp.public.into_compressed() && cmd == SignedCommand::from_payload(p, kp, net(&signed["net"]));
    cmd.payload = payload(&c["payload"]);
    cmd.signer = key(c["key"].as_i64().unwrap());
    if c["odd"] == true {
        cmd.signer.is_odd ^= true;
    }
    if c["s"] == false {
        cmd.signature = Signature { rx: cmd.signature.rx, s: cmd.signature.s + cmd.signature.s };
    }
    (cmd, faithful)
}
pub fn signed(c: &J) -> J {
    let (cmd, faithful) = command(&c["signed"], c);
    let d = |n| <SignedCommandPayload as Hashable>::domain_string(n);
    let user = UserCommand::SignedCommand(cmd.clone());
    let v = |n: NetworkId| {
        let a = verifies(&cmd, n);
        if a == verifies(&user, n) { a } else { json!("differs from the user command's") }
    };
    json!({"ok": true, "faithful": faithful, "input": input(&cmd.payload),
        "domains": {"mainnet": d(NetworkId::MAINNET), "testnet": d(NetworkId::TESTNET)},
        "verify": {"mainnet": v(NetworkId::MAINNET), "testnet": v(NetworkId::TESTNET)}})
}

/// a block part with these commands: (what was signed, command) by name
fn part(l: &J, cmds: &J) -> StagedLedgerPreDiff {
    StagedLedgerPreDiff {
        commands: l
            .as_array()
            .unwrap()
            .iter()
            .map(|k| {
                let c = &cmds[k.as_str().unwrap()];
                let mut orig = json!({"payload": c["payload"], "key": 1, "net": "mainnet"});
                match k.as_str().unwrap() {
                    "net" => orig["net"] = json!("testnet"),
                    "amount" => orig["payload"] = cmds["ok"]["payload"].clone(),
                    _ => {}
                }
                UserCommandWithStatus {
                    data: UserCommand::SignedCommand(command(&orig, c).0),
                    status: failed(),
                }
            })
            .collect(),
        ..Default::default()
    }
}
fn failed() -> TransactionStatus {
    let none = json!({"fee_payer_balance": null, "source_balance": null, "receiver_balance": null});
    serde_json::from_value::<mina_serialization_types::json::TransactionStatusJson>(json!(["Failed", ["Predicate"], none])).unwrap().into()
}
pub fn diff(c: &J) -> StagedLedgerDiff {
    let one = &c["one"];
    let one = if one == &json!(["none"]) { None } else { Some(part(one, &c["cmds"])) };
    let two = part(&c["two"], &c["cmds"]);
    let t: StagedLedgerDiffTuple = ser::StagedLedgerDiffTuple(two.into(), one.map(|x| x.into())).into();
    StagedLedgerDiff { diff: t }
}
pub fn transition(diff: StagedLedgerDiff) -> ExternalTransition {
    ExternalTransition {
        protocol_state: Default::default(),
        protocol_state_proof: Default::default(),
        staged_ledger_diff: diff,
        delta_transition_chain_proof: Default::default(),
        current_protocol_version: Default::default(),
        proposed_protocol_version_opt: None,
        validation_callback: (),
    }
}
pub fn block(c: &J) -> J {
    let d = diff(c);
    let n = (d.diff.diff_two().commands.len(), d.diff.diff_one().as_ref().map(|x| x.commands.len()));
    let a = verifies(&d, NetworkId::MAINNET);
    let b = verifies(&transition(d), NetworkId::MAINNET);
    json!({"ok": true, "n": [n.0, n.1], "verify": if a == b { a } else { json!("differs") }})
}
pub fn built(c: &J) -> J {
    let (o, b) = (&c["opts"], &c["base"]);
    let mk = |rev: bool| {
        let mut names: Vec<&str> = ["token", "feeToken", "payer", "memo", "valid"].iter().cloned().filter(|n| o.get(n).is_some()).collect();
        if rev {
            names.reverse();
        }
        let mut s = SignedTransferCommandBuilder::new(pk(&b["source"]), pk(&b["receiver"]), u64_(&b["amount"]), u64_(&b["fee"]), u32_(&b["nonce"]));
        for n in names {
            let v = &o[n];
            s = match n {
                "token" => s.transfer_token(u64_(v)),
                "feeToken" => s.fee_token(u64_(v)),
                "payer" => s.fee_payer(pk(v)),
                "memo" => s.memo(SignedCommandMemo(bytes(v))),
                _ => s.valid_until(u32_(v)),
            };
        }
        s.build()
    };
    let want = payload(&c["want"]);
    json!({"ok": true, "same": [mk(false) == want, mk(true) == want], "got": format!("{:?}", mk(false))})
}
pub fn memo(c: &J) -> J {
    let m = SignedCommandMemo::try_from_text(bytes(&c["text"]));
    json!({"ok": true, "memo": m.as_ref().map(|m| m.0.clone()).unwrap_or_default(), "text": m.map(|m| m.to_text().into_bytes()).unwrap_or_default()})
}
pub fn text(c: &J) -> J {
    let m = SignedCommandMemo(bytes(&c["memo"]));
    match catch_unwind(AssertUnwindSafe(|| m.to_text())) {
        Ok(t) => json!({"ok": true, "same": t == String::from_utf8_lossy(&bytes(&c["want"])), "text": t}),
        Err(_) => json!({"ok": true, "same": false, "text": "PANIC"}),
    }
}

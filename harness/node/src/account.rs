//! Accounts in a ledger database (spec/Account.tla, spec/MC_Ledger.tla).
use bin_prot::{from_reader_strict, to_writer};
use mina_ledger::{GenesisLedger, MinaLedgerMerkleTree, MinaLedgerMerkleTreeLegacy, RocksDbGenesisLedger};
use mina_merkle::MerkleTree;
use mina_rs_base::account::*;
use mina_rs_base::BinProtSerializationType;
use proof_systems::mina_signer::CompressedPubKey;
use proof_systems::o1_utils::FieldHelpers;
use rocksdb::DB;
use serde_json::{json, Value as J};

fn hx(j: &J) -> Vec<u8> {
    hex::decode(j.as_str().unwrap()).unwrap()
}
fn le(n: u64) -> J {
    json!(n.to_le_bytes())
}
fn key(k: &CompressedPubKey) -> J {
    json!({"x": k.x.to_bytes().to_vec(), "odd": k.is_odd})
}
fn raw<T: Clone + Into<[u8; 32]>>(h: &T) -> [u8; 32] {
    h.clone().into()
}
fn auth(a: &AuthRequired) -> J {
    json!(format!("{a:?}"))
}
fn perm(t: &TokenPermissions) -> J {
    match t {
        TokenPermissions::NotOwned { account_disabled } => json!([false, account_disabled]),
        TokenPermissions::TokenOwned { disable_new_accounts } => json!([true, disable_new_accounts]),
    }
}
fn timing(t: &Timing) -> J {
    match t {
        Timing::Untimed => json!(null),
        Timing::Timed(t) => json!([le(t.initial_minimum_balance.0), le(t.cliff_time.0), le(t.cliff_amount.0), le(t.vesting_period.0), le(t.vesting_increment.0)]),
    }
}
trait Seen {
    fn seen(&self) -> J;
}
impl Seen for AccountLegacy {
    fn seen(&self) -> J {
        let p = &self.permissions;
        json!({"key": key(&self.public_key), "token": le(self.token_id.0), "perm": perm(&self.token_permissions), "balance": le(self.balance.0),
            "nonce": self.nonce.0.to_le_bytes(), "receipt": raw(&self.receipt_chain_hash), "delegate": self.delegate.as_ref().map(key),
            "voting": raw(&self.voting_for), "timing": timing(&self.timing), "stake": p.stake,
            "auth": ([&p.edit_state, &p.send, &p.receive, &p.set_delegate, &p.set_permissions, &p.set_verification_key].map(auth)),
            "apps": [self.snapp.is_some()]})
    }
}
impl Seen for Account {
    fn seen(&self) -> J {
        let p = &self.permissions;
        json!({"key": key(&self.public_key), "token": le(self.token_id.0), "perm": perm(&self.token_permissions), "balance": le(self.balance.0),
            "symbol": raw(&self.token_symbol),
            "nonce": self.nonce.0.to_le_bytes(), "receipt": raw(&self.receipt_chain_hash), "delegate": self.delegate.as_ref().map(key),
            "voting": raw(&self.voting_for), "timing": timing(&self.timing),
            "auth": ([&p.edit_state, &p.send, &p.receive, &p.set_delegate, &p.set_permissions, &p.set_verification_key, &p.set_zkapp_uri,
                &p.edit_sequence_state, &p.set_token_symbol, &p.increment_nonce, &p.set_voting_for].map(auth)),
            "apps": [self.zkapp.is_some(), self.zkapp_uri.is_some()]})
    }
}
fn parse<'a, A: BinProtSerializationType<'a>>(v: &[u8]) -> Option<A> {
    from_reader_strict::<_, A::T>(v).ok().map(Into::into)
}
fn back<'a, A: BinProtSerializationType<'a>>(a: A) -> String {
    let mut out = vec![];
    let t: A::T = a.into();
    to_writer(&mut out, &t).unwrap();
    hex::encode(out)
}
fn one<'a, A: BinProtSerializationType<'a> + Seen>(v: &[u8]) -> J {
    match parse::<A>(v) {
        None => json!({"ok": true, "read": false}),
        Some(a) => json!({"ok": true, "read": true, "seen": a.seen(), "back": back(a)}),
    }
}
/// one document
pub fn account(c: &J) -> J {
    let v = hx(&c["hex"]);
    match c["fmt"].as_str().unwrap() {
        "legacy" => one::<AccountLegacy>(&v),
        _ => one::<Account>(&v),
    }
}
fn kind(e: String) -> &'static str {
    if e.starts_with("RocksDBError") { "database" } else { "document" }
}
macro_rules! walk {
    ($account:ty, $tree:ty, $to:ident, $db:expr, $want:expr) => {{
        let l = RocksDbGenesisLedger::<20, $account>::new(&$db);
        let all = || -> Vec<Option<String>> { l.accounts().map(|r| r.ok().map(back::<$account>)).collect() };
        let kinds: Vec<&str> = l.accounts().filter_map(|r| r.err().map(|e| kind(e.to_string()))).collect();
        let (a, b) = (all(), all());
        let mut out = json!({"ok": true, "accounts": a, "again": a == b, "errors": kinds, "depth": l.depth()});
        if let Some(w) = $want.as_array() {
            let mut t = <$tree>::new(20);
            t.add_batch(w.iter().map(|v| parse::<$account>(&hx(v)).unwrap()));
            let mut r = l.$to();
            out["root"] = json!(r.root().map(|f| hex::encode(f.to_bytes())));
            out["want"] = json!(t.root().map(|f| hex::encode(f.to_bytes())));
            out["count"] = json!(r.count());
        }
        out
    }};
}
/// a database: its accounts and the ledger made of it
pub fn ledger(c: &J) -> J {
    let items = c["items"].as_array().unwrap().iter().map(|x| (hx(&x[0]), hx(&x[1])));
    let db = DB::in_memory(items, c["fail"].as_str().map(|s| hex::decode(s).unwrap()));
    match c["fmt"].as_str().unwrap() {
        "legacy" => walk!(AccountLegacy, MinaLedgerMerkleTreeLegacy<AccountLegacy>, to_mina_merkle_ledger_legacy, db, c["want"]),
        _ => walk!(Account, MinaLedgerMerkleTree<Account>, to_mina_merkle_ledger, db, c["want"]),
    }
}

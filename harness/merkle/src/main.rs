//! Executes conformance cases against the real `mina-merkle` crate.
//! Hashes are symbolic terms (see spec/Merkle.tla); the Poseidon hashers and mergers run on the
//! stand-in oracle, against which the same terms are evaluated.
#[path = "../../common/driver.rs"]
mod driver;
use mina_merkle::*;
use proof_systems::mina_hasher::{self, Fp, Hashable, ROInput};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Sym = String;
fn empty(h: u32) -> Sym {
    format!("E{h}")
}
fn pair(l: &str, r: &str, h: u32) -> Sym {
    format!("({l},{r}){h}")
}
fn sym_merge(mg: &str, hs: [Option<Sym>; 2], h: u32) -> Option<Sym> {
    let [l, r] = hs;
    match mg {
        "total" => {
            let e = empty(h.wrapping_sub(1));
            let (l, r) = (l.unwrap_or(e.clone()), r.unwrap_or(e.clone()));
            Some(if l == e && r == e { empty(h) } else { pair(&l, &r, h) })
        }
        _ if l.is_none() && r.is_none() => None,
        "dup" if r.is_none() => {
            let l = l.unwrap();
            Some(pair(&l, &l, h))
        }
        _ => Some(pair(l.as_deref().unwrap_or("_"), r.as_deref().unwrap_or("_"), h)),
    }
}
pub struct SymHasher;
impl MerkleHasher for SymHasher {
    type Item = u64;
    type Hash = Sym;
    fn hash(i: &u64, m: MerkleTreeNodeMetadata) -> Sym {
        if m.height() == 0 {
            format!("L{i}")
        } else {
            format!("L{i}!{}", m.height())
        }
    }
}
macro_rules! sym {
    ($n:ident, $f:ident, $s:expr) => {
        pub struct $n;
        impl MerkleMerger for $n {
            type Hash = Sym;
            fn merge(h: [Option<Sym>; 2], m: MerkleTreeNodeMetadata) -> Option<Sym> {
                sym_merge($s, h, m.height())
            }
        }
        /// the same over interned terms
        pub struct $f;
        impl MerkleMerger for $f {
            type Hash = Fp;
            fn merge(h: [Option<Fp>; 2], m: MerkleTreeNodeMetadata) -> Option<Fp> {
                sym_merge($s, h.map(|x| x.map(term)), m.height()).map(|s| intern(&s))
            }
        }
    };
}
sym!(Opt, OptF, "opt");
sym!(Total, TotalF, "total");
sym!(Dup, DupF, "dup");
thread_local! { static TERMS: RefCell<Vec<String>> = RefCell::new(vec![]); }
fn intern(s: &str) -> Fp {
    TERMS.with(|t| {
        let mut t = t.borrow_mut();
        let i = t.iter().position(|x| x == s).unwrap_or_else(|| {
            t.push(s.into());
            t.len() - 1
        });
        Fp::from(i as u64 + 1)
    })
}
fn term(f: Fp) -> String {
    TERMS.with(|t| {
        let t = t.borrow();
        (0..t.len()).find(|i| Fp::from(*i as u64 + 1) == f).map(|i| t[i].clone()).unwrap_or_else(|| "?".into())
    })
}
pub struct FpHasher;
impl MerkleHasher for FpHasher {
    type Item = u64;
    type Hash = Fp;
    fn hash(i: &u64, m: MerkleTreeNodeMetadata) -> Fp {
        intern(&SymHasher::hash(i, m))
    }
}

#[derive(Clone, Debug)]
pub struct It(u64);
impl Hashable for It {
    type D = ();
    fn to_roinput(&self) -> ROInput {
        ROInput::new().append_u64(self.0)
    }
    fn domain_string(_: ()) -> Option<String> {
        Some("leaf".into())
    }
}
impl From<u64> for It {
    fn from(x: u64) -> It {
        It(x)
    }
}
/// value of a term under the oracle that stands in for Poseidon
fn eval(variant: &str, t: &str) -> Fp {
    let (f, rest) = eval_at(variant, t);
    assert!(rest.is_empty(), "HARNESS bad term");
    f
}
fn number(t: &str) -> (u32, &str) {
    let e = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
    (t[..e].parse().expect("HARNESS bad term"), &t[e..])
}
fn node(variant: &str, l: Fp, r: Fp, h: u32) -> Fp {
    let input = ROInput::new().append_field(l).append_field(r);
    mina_hasher::oracle(variant, &Some(format!("CodaMklTree{:03}", h - 1)), &[input])
}
fn eval_at<'a>(variant: &str, t: &'a str) -> (Fp, &'a str) {
    if let Some(t) = t.strip_prefix('(') {
        let (l, t) = eval_at(variant, t);
        let (r, t) = eval_at(variant, t.strip_prefix(',').expect("HARNESS bad term"));
        let (h, t) = number(t.strip_prefix(')').expect("HARNESS bad term"));
        (node(variant, l, r, h), t)
    } else if let Some(t) = t.strip_prefix('L') {
        let (v, t) = number(t);
        (mina_hasher::oracle(variant, &Some("leaf".into()), &[It(v as u64).to_roinput()]), t)
    } else {
        let (h, t) = number(t.strip_prefix('E').expect("HARNESS bad term"));
        // the digest of the empty account, as documented in the code base
        let zero = match variant {
            "legacy" => "14604874247461951431777712543359658136906556694369689076707549712589474483312",
            _ => "9572980593872981109373931329129826339992116007886182568766828232902813999143",
        };
        let mut e = proof_systems::fp_from_radix_10(zero).expect("HARNESS constant");
        for i in 1..=h {
            e = node(variant, e, e, i);
        }
        (e, t)
    }
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
fn u(j: &J) -> usize {
    j.as_u64().expect("HARNESS number") as usize
}
/// hash as the term it stands for; `want` is what the specification expects, for opaque hashes
trait Show {
    fn show(&self, variant: &str, want: &str) -> String;
}
impl Show for Sym {
    fn show(&self, _: &str, _: &str) -> String {
        self.clone()
    }
}
impl Show for Fp {
    fn show(&self, variant: &str, want: &str) -> String {
        if variant == "sym" {
            term(*self)
        } else if !want.is_empty() && want != "refuse" && want != "!" && eval(variant, want) == *self {
            want.into()
        } else {
            format!("#{self}")
        }
    }
}

macro_rules! history {
    ($case:expr, $item:ty, $hash:ty, $hasher:ty, $merger:ty, $variant:expr) => {{
        let case: &J = $case;
        let mode = u(&case["mode"]);
        if mode == 99 {
            let t = match case["cap"].as_u64() {
                Some(c) => MinaMerkleTree::<$item, $hash, $hasher, $merger, VariableHeightMode>::with_capacity(c as usize),
                None => MinaMerkleTree::<$item, $hash, $hasher, $merger, VariableHeightMode>::new(),
            };
            history!(@run case, t, $item, $variant)
        } else {
            let t = MinaMerkleTree::<$item, $hash, $hasher, $merger, FixedHeightMode>::new(mode as u32);
            history!(@run case, t, $item, $variant)
        }
    }};
    (@root $t:expr, $variant:expr, $want:expr) => {
        match guarded(|| $t.root()) {
            Err(m) => json!({"panic": m}),
            Ok(None) => json!({"root": ""}),
            Ok(Some(h)) => json!({"root": h.show($variant, $want)}),
        }
    };
    (@proof $t:expr, $i:expr, $variant:expr) => {
        match guarded(|| $t.get_proof($i)) {
            Err(m) => json!({"panic": m}),
            Ok(None) => json!({"none": true}),
            Ok(Some(p)) => {
                let root = guarded(|| $t.root());
                let fine = match (&root, guarded(|| p.root_hash())) {
                    (Ok(Some(r)), Ok(Ok(h))) => *r == h && p.verify(r),
                    _ => false,
                };
                json!({"index": p.index, "peers": p.peer_indices, "verified": fine, "nh": p.peer_hashes.len()})
            }
        }
    };
    (@run $case:expr, $t:expr, $item:ty, $variant:expr) => {{
        let mut t = $t;
        let mut ans = vec![];
        for (o, want) in $case["ops"].as_array().unwrap().iter().zip($case["ans"].as_array().unwrap()) {
            ans.push(match o["op"].as_str().unwrap() {
                "add" => {
                    let v: Vec<$item> = o["v"].as_array().unwrap().iter().map(|x| (u(x) as u64).into()).collect();
                    match guarded(|| if v.len() == 1 { t.add(v[0].clone()) } else { t.add_batch(v.clone()) }) {
                        Ok(()) => json!({"n": t.count(), "h": t.height()}),
                        Err(m) => json!({"panic": m}),
                    }
                }
                "root" => history!(@root t, $variant, want["root"].as_str().unwrap()),
                "proof" => history!(@proof t, u(&o["i"]), $variant),
                _ => panic!("HARNESS op"),
            });
        }
        let root = history!(@root t, $variant, $case["final"]["root"].as_str().unwrap());
        let np = $case["final"]["proofs"].as_array().unwrap().len();
        let proofs: Vec<J> = (0..np).map(|i| history!(@proof t, i, $variant)).collect();
        json!({"ok": true, "ans": ans, "root": root, "proofs": proofs})
    }};
}
macro_rules! proof {
    ($case:expr, $item:ty, $hash:ty, $hasher:ty, $merger:ty, $variant:expr, $mk:expr) => {{
        let c: &J = $case;
        let p = &c["p"];
        let mk = $mk;
        let proof: DefaultMerkleProof<$item, $hash, $hasher, $merger> = DefaultMerkleProof {
            index: u(&p["index"]),
            item: (u(&p["item"]) as u64).into(),
            peer_indices: p["pi"].as_array().unwrap().iter().map(u).collect(),
            peer_hashes: p["ph"].as_array().unwrap().iter().map(|h| match h.as_str().unwrap() {
                "" => None,
                s => Some(mk(s)),
            }).collect(),
            _hasher: Default::default(),
            _merger: Default::default(),
        };
        let e = match guarded(|| proof.root_hash()) {
            Err(m) => format!("panic: {m}"),
            Ok(Err(_)) => "!".into(),
            Ok(Ok(h)) => h.show($variant, c["eval"].as_str().unwrap()),
        };
        let a = match guarded(|| proof.verify(&mk(c["root"].as_str().unwrap()))) {
            Err(m) => json!(format!("panic: {m}")),
            Ok(b) => json!(b),
        };
        json!({"ok": true, "eval": e, "accept": a})
    }};
}
macro_rules! path {
    ($case:expr, $m:ty) => {{
        let c: &J = $case;
        let p: Vec<J> = c["path"].as_array().unwrap().iter().enumerate().map(|(i, s)| {
            let h = proof_systems::FpJson(intern(&format!("L{}", 101 + i)));
            let h = serde_json::to_value(h).unwrap();
            match s.as_str().unwrap() {
                "l" => json!({"left": h, "right": null}),
                "r" => json!({"left": null, "right": h}),
                "lr" => json!({"left": h, "right": h}),
                _ => json!({"left": null, "right": null}),
            }
        }).collect();
        let mp: MerklePath = serde_json::from_value(J::Array(p.clone())).expect("HARNESS path");
        let back = serde_json::to_value(&mp).unwrap() == J::Array(p);
        match guarded(|| mp.to_proof::<u64, FpHasher, $m>(7)) {
            Err(m) => json!({"ok": false, "err": "PANIC", "msg": m, "json": back}),
            Ok(Err(_)) => json!({"ok": false, "err": "error", "json": back}),
            Ok(Ok(p)) => {
                let e = match guarded(|| p.root_hash()) {
                    Err(m) => format!("panic: {m}"),
                    Ok(Err(_)) => "!".into(),
                    Ok(Ok(h)) => term(h),
                };
                json!({"ok": true, "index": p.index.to_string(), "peers": p.peer_indices.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "eval": e, "json": back})
            }
        }
    }};
}

fn run(c: &J) -> J {
    TERMS.with(|t| t.borrow_mut().clear());
    let mg = c["mg"].as_str().unwrap_or("");
    let hash = c["hash"].as_str().unwrap_or("sym");
    match c["op"].as_str().unwrap() {
        "history" => match (hash, mg) {
            ("sym", "opt") => history!(c, u64, Sym, SymHasher, Opt, "sym"),
            ("sym", "total") => history!(c, u64, Sym, SymHasher, Total, "sym"),
            ("sym", "dup") => history!(c, u64, Sym, SymHasher, Dup, "sym"),
            ("legacy", _) => history!(c, It, Fp, MinaPoseidonMerkleHasherLegacy<It>, MinaPoseidonMerkleMergerLegacy, "legacy"),
            _ => history!(c, It, Fp, MinaPoseidonMerkleHasher<It>, MinaPoseidonMerkleMerger, "kimchi"),
        },
        "proof" => match (hash, mg) {
            ("sym", "opt") => proof!(c, u64, Sym, SymHasher, Opt, "sym", |s: &str| s.to_string()),
            ("sym", "total") => proof!(c, u64, Sym, SymHasher, Total, "sym", |s: &str| s.to_string()),
            ("sym", "dup") => proof!(c, u64, Sym, SymHasher, Dup, "sym", |s: &str| s.to_string()),
            ("legacy", _) => proof!(c, It, Fp, MinaPoseidonMerkleHasherLegacy<It>, MinaPoseidonMerkleMergerLegacy, "legacy", |s: &str| eval("legacy", s)),
            _ => proof!(c, It, Fp, MinaPoseidonMerkleHasher<It>, MinaPoseidonMerkleMerger, "kimchi", |s: &str| eval("kimchi", s)),
        },
        "path" => match mg {
            "opt" => path!(c, OptF),
            "total" => path!(c, TotalF),
            _ => path!(c, DupF),
        },
        "meta" => {
            let m = MerkleTreeNodeMetadata::new(c["index"].as_str().unwrap().parse().unwrap(), u(&c["tree"]) as u32);
            json!({"ok": true, "depth": m.depth(), "height": m.height()})
        }
        "prefix" => {
            let h = u(&c["h"]) as u32;
            json!({"ok": true, "tree": mina_merkle::prefixes::make_prefix_merkle_tree(h), "coinbase": mina_merkle::prefixes::make_prefix_coinbase_merkle_tree(h)})
        }
        _ => panic!("HARNESS op"),
    }
}
fn main() {
    driver::drive(run)
}

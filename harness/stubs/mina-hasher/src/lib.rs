//! Stand-in for mina-hasher: the random oracle input is the real structure; Poseidon is
//! replaced by SHA-256 of an injective encoding of (variant, domain string, input).
use bitvec::prelude::*;
use o1_utils::FieldHelpers;
use sha2::{Digest, Sha256};
use std::marker::PhantomData;

pub use mina_curves::pasta::Fp;
use mina_curves::pasta::Fq;

pub trait Hashable: Clone {
    type D;
    fn to_roinput(&self) -> ROInput;
    fn domain_string(domain_param: Self::D) -> Option<String>;
}

#[derive(Default, Debug, Clone, PartialEq, Eq)]
pub struct ROInput {
    pub fields: Vec<Fp>,
    pub bits: BitVec<u8>,
}
impl ROInput {
    pub fn new() -> Self {
        Default::default()
    }
    pub fn append_hashable(self, h: &impl Hashable) -> Self {
        self.append_roinput(h.to_roinput())
    }
    pub fn append_roinput(mut self, roi: ROInput) -> Self {
        self.fields.extend(roi.fields);
        self.bits.extend(roi.bits);
        self
    }
    pub fn append_field(mut self, f: Fp) -> Self {
        self.fields.push(f);
        self
    }
    pub fn append_scalar(mut self, s: Fq) -> Self {
        self.bits.extend(s.to_bits());
        self
    }
    pub fn append_bool(mut self, b: bool) -> Self {
        self.bits.push(b);
        self
    }
    pub fn append_bytes(mut self, bytes: &[u8]) -> Self {
        self.bits.extend_from_bitslice(bytes.view_bits::<Lsb0>());
        self
    }
    pub fn append_u32(self, x: u32) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
    pub fn append_u64(self, x: u64) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
}

pub trait Hasher<H: Hashable> {
    fn init(&mut self, domain_param: H::D) -> &mut dyn Hasher<H>;
    fn update(&mut self, input: &H) -> &mut dyn Hasher<H>;
    fn digest(&mut self) -> Fp;
    fn init_and_hash(&mut self, domain_param: H::D, input: &H) -> Fp {
        self.init(domain_param);
        self.hash(input)
    }
    fn hash(&mut self, input: &H) -> Fp {
        self.update(input);
        self.digest()
    }
}

pub struct PoseidonHasher<H: Hashable> {
    variant: &'static str,
    domain: Option<String>,
    inputs: Vec<ROInput>,
    _p: PhantomData<H>,
}
pub type PoseidonHasherLegacy<H> = PoseidonHasher<H>;
pub type PoseidonHasherKimchi<H> = PoseidonHasher<H>;
pub fn create_legacy<H: Hashable>(d: H::D) -> PoseidonHasher<H> {
    PoseidonHasher { variant: "legacy", domain: H::domain_string(d), inputs: vec![], _p: PhantomData }
}
pub fn create_kimchi<H: Hashable>(d: H::D) -> PoseidonHasher<H> {
    PoseidonHasher { variant: "kimchi", domain: H::domain_string(d), inputs: vec![], _p: PhantomData }
}
/// the oracle itself, for use by the harness
pub fn oracle(variant: &str, domain: &Option<String>, inputs: &[ROInput]) -> Fp {
    let mut h = Sha256::new();
    h.update(format!("{variant}|{domain:?}|").as_bytes());
    for i in inputs {
        h.update(format!("f{}|", i.fields.len()).as_bytes());
        for f in &i.fields {
            h.update(f.to_bytes());
        }
        h.update(format!("b{}|", i.bits.len()).as_bytes());
        h.update(i.bits.iter().map(|b| *b as u8).collect::<Vec<u8>>());
    }
    let mut d = h.finalize().to_vec();
    d[31] &= 0x3f;
    Fp::from_bytes(&d).unwrap()
}
impl<H: Hashable> Hasher<H> for PoseidonHasher<H> {
    fn init(&mut self, d: H::D) -> &mut dyn Hasher<H> {
        self.domain = H::domain_string(d);
        self.inputs.clear();
        self
    }
    fn update(&mut self, input: &H) -> &mut dyn Hasher<H> {
        self.inputs.push(input.to_roinput());
        self
    }
    fn digest(&mut self) -> Fp {
        let r = oracle(self.variant, &self.domain, &self.inputs);
        self.inputs.clear();
        r
    }
}

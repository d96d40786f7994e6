//! Stand-in for mina-signer: real addresses (base58check) and key formats, an idealised
//! signature scheme (rx is a hash of network, public key and input; s one of the signer and rx).
use ark_ff::{PrimeField, Zero};
use mina_hasher::{Hashable, Hasher, ROInput};
use o1_utils::FieldHelpers;
use std::marker::PhantomData;

pub type BaseField = mina_curves::pasta::Fp;
pub type ScalarField = mina_curves::pasta::Fq;
pub type CurvePoint = mina_curves::pasta::pallas::Affine;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NetworkId {
    TESTNET = 0x00,
    MAINNET = 0x01,
}
impl From<NetworkId> for u8 {
    fn from(id: NetworkId) -> u8 {
        id as u8
    }
}

pub mod pubkey {
    use super::*;
    #[derive(thiserror::Error, Debug, Clone, PartialEq, Eq)]
    pub enum PubKeyError {
        #[error("invalid address length")]
        AddressLength,
        #[error("invalid address base58 encoding")]
        AddressBase58,
        #[error("invalid raw address bytes length")]
        AddressRawByteLength,
        #[error("invalid address checksum")]
        AddressChecksum,
        #[error("invalid address version info")]
        AddressVersion,
        #[error("invalid x-coordinate bytes")]
        XCoordinateBytes,
        #[error("invalid x-coordinate")]
        XCoordinate,
        #[error("point not on curve")]
        YCoordinateBytes,
        #[error("invalid y-coordinate parity")]
        YCoordinateParity,
        #[error("invalid y-coordinate parity bytes")]
        YCoordinateParityBytes,
        #[error("invalid hex")]
        Hex,
    }
    pub type Result<T> = std::result::Result<T, PubKeyError>;
    /// whether y^2 = x^3 + 5 has a solution
    pub fn on_curve(x: BaseField) -> bool {
        use num_bigint::BigUint;
        use std::cell::RefCell;
        use std::collections::HashMap;
        thread_local! { static KNOWN: RefCell<HashMap<Vec<u8>, bool>> = Default::default() }
        let key = x.to_bytes();
        if let Some(b) = KNOWN.with(|k| k.borrow().get(&key).copied()) {
            return b;
        }
        let p: BigUint = <mina_curves::pasta::FpParams as ark_ff::FpParameters>::MODULUS.into();
        let x: BigUint = ark_ff::BigInteger256::from(x).into();
        let r = (&x * &x * &x + 5u32) % &p;
        let e: BigUint = (&p - 1u32) / 2u32;
        let b = r.modpow(&e, &p) <= BigUint::from(1u32);
        KNOWN.with(|k| k.borrow_mut().insert(key, b));
        b
    }
    pub const MINA_ADDRESS_LEN: usize = 55;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct CompressedPubKey {
        pub x: BaseField,
        pub is_odd: bool,
    }
    impl CompressedPubKey {
        pub fn from_address(address: &str) -> Result<Self> {
            if address.len() != MINA_ADDRESS_LEN {
                return Err(PubKeyError::AddressLength);
            }
            let raw = bs58::decode(address).into_vec().map_err(|_| PubKeyError::AddressBase58)?;
            if raw.len() != 40 {
                return Err(PubKeyError::AddressRawByteLength);
            }
            if bs58::checksum(&raw[..36]) != raw[36..] {
                return Err(PubKeyError::AddressChecksum);
            }
            if raw[..3] != [0xcb, 0x01, 0x01] {
                return Err(PubKeyError::AddressVersion);
            }
            let x = BaseField::from_bytes(&raw[3..35]).map_err(|_| PubKeyError::XCoordinateBytes)?;
            let is_odd = match raw[35] {
                0 => false,
                1 => true,
                _ => return Err(PubKeyError::YCoordinateParity),
            };
            // like the original, by way of the uncompressed key
            if !on_curve(x) {
                return Err(PubKeyError::XCoordinate);
            }
            Ok(Self { x, is_odd })
        }
        pub fn into_address(&self) -> String {
            let mut raw = vec![0xcb, 0x01, 0x01];
            raw.extend(self.x.to_bytes());
            raw.push(self.is_odd as u8);
            let c = bs58::checksum(&raw);
            raw.extend(c);
            bs58::encode(raw).into_string()
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self> {
            if b.len() != 33 {
                return Err(PubKeyError::XCoordinateBytes);
            }
            let x = BaseField::from_bytes(&b[..32]).map_err(|_| PubKeyError::XCoordinateBytes)?;
            let is_odd = match b[32] {
                0 => false,
                1 => true,
                _ => return Err(PubKeyError::YCoordinateParity),
            };
            Ok(Self { x, is_odd })
        }
        pub fn from_hex(h: &str) -> Result<Self> {
            Self::from_bytes(&hex::decode(h).map_err(|_| PubKeyError::Hex)?)
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            let mut b = self.x.to_bytes();
            b.push(self.is_odd as u8);
            b
        }
        pub fn into_hex(&self) -> String {
            hex::encode(self.to_bytes())
        }
        pub fn empty() -> Self {
            Self { x: BaseField::zero(), is_odd: false }
        }
    }

    /// an uncompressed key is represented by the compressed one
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PubKey(pub(crate) CompressedPubKey);
    impl PubKey {
        pub fn from_address(address: &str) -> Result<Self> {
            CompressedPubKey::from_address(address).map(PubKey)
        }
        pub fn into_address(&self) -> String {
            self.0.into_address()
        }
        pub fn into_compressed(&self) -> CompressedPubKey {
            self.0.clone()
        }
    }
}
pub use pubkey::{CompressedPubKey, PubKey};

pub mod seckey {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SecKey(pub(crate) ScalarField);
    impl SecKey {
        pub fn to_bytes(&self) -> Vec<u8> {
            let mut b = self.0.to_bytes();
            b.reverse();
            b
        }
        pub fn to_hex(&self) -> String {
            hex::encode(self.to_bytes())
        }
    }
}
pub use seckey::SecKey;

pub mod keypair {
    use super::*;
    #[derive(thiserror::Error, Debug, Clone, PartialEq, Eq)]
    pub enum KeypairError {
        #[error("Invalid secret key hex")]
        SecretKeyHex,
        #[error("Invalid secret key bytes")]
        SecretKeyBytes,
        #[error("point not on curve")]
        NonCurvePoint,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Keypair {
        pub(crate) secret: SecKey,
        pub public: PubKey,
    }
    #[derive(Clone)]
    struct K(ScalarField, u64);
    impl Hashable for K {
        type D = ();
        fn to_roinput(&self) -> ROInput {
            ROInput::new().append_scalar(self.0).append_u64(self.1)
        }
        fn domain_string(_: ()) -> Option<String> {
            Some("keypair".into())
        }
    }
    impl Keypair {
        pub fn from_hex(h: &str) -> Result<Self, KeypairError> {
            let mut b = hex::decode(h).map_err(|_| KeypairError::SecretKeyHex)?;
            b.reverse();
            if b.len() != 32 {
                return Err(KeypairError::SecretKeyBytes);
            }
            let s = ScalarField::from_bytes(&b).map_err(|_| KeypairError::SecretKeyBytes)?;
            // the first point of the curve in a sequence determined by the secret
            let x = (0..)
                .map(|i| mina_hasher::create_kimchi::<K>(()).hash(&K(s, i)))
                .find(|x| pubkey::on_curve(*x))
                .unwrap();
            let is_odd = x.to_bits()[7];
            Ok(Self { secret: SecKey(s), public: PubKey(CompressedPubKey { x, is_odd }) })
        }
        pub fn to_hex(&self) -> String {
            self.secret.to_hex()
        }
        pub fn get_address(self) -> String {
            self.public.into_address()
        }
    }
}
pub use keypair::Keypair;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Signature {
    pub rx: BaseField,
    pub s: ScalarField,
}
impl Signature {
    pub fn new(rx: BaseField, s: ScalarField) -> Self {
        Self { rx, s }
    }
    pub fn dummy() -> Self {
        use ark_ff::One;
        Self { rx: BaseField::one(), s: ScalarField::one() }
    }
}

impl std::fmt::Display for Signature {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (mut a, mut b) = (self.rx.to_bytes(), self.s.to_bytes());
        a.reverse();
        b.reverse();
        write!(f, "{}{}", hex::encode(a), hex::encode(b))
    }
}

pub trait Signer<H: Hashable> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature;
    fn verify(&mut self, sig: &Signature, pub_key: &PubKey, input: &H) -> bool;
}
pub struct Schnorr<H: Hashable<D = NetworkId>> {
    variant: &'static str,
    domain: NetworkId,
    _p: PhantomData<H>,
}
#[derive(Clone)]
struct Msg<H: Hashable<D = NetworkId>>(H, CompressedPubKey);
impl<H: Hashable<D = NetworkId>> Hashable for Msg<H> {
    type D = NetworkId;
    fn to_roinput(&self) -> ROInput {
        self.0.to_roinput().append_field(self.1.x).append_bool(self.1.is_odd)
    }
    fn domain_string(d: NetworkId) -> Option<String> {
        H::domain_string(d)
    }
}
impl<H: Hashable<D = NetworkId>> Schnorr<H> {
    fn tag(&self, pk: &PubKey, input: &H) -> BaseField {
        let m = Msg(input.clone(), pk.into_compressed());
        mina_hasher::oracle(self.variant, &Msg::<H>::domain_string(self.domain), &[m.to_roinput()])
    }
}
fn proof(pk: &PubKey, rx: BaseField) -> ScalarField {
    let i = ROInput::new().append_field(pk.0.x).append_bool(pk.0.is_odd).append_field(rx);
    ScalarField::from_le_bytes_mod_order(&mina_hasher::oracle("proof", &None, &[i]).to_bytes())
}
impl<H: Hashable<D = NetworkId>> Signer<H> for Schnorr<H> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature {
        let rx = self.tag(&kp.public, input);
        Signature { rx, s: proof(&kp.public, rx) }
    }
    fn verify(&mut self, sig: &Signature, pub_key: &PubKey, input: &H) -> bool {
        let rx = self.tag(pub_key, input);
        sig.rx == rx && sig.s == proof(pub_key, rx)
    }
}
pub fn create_legacy<H: Hashable<D = NetworkId>>(network_id: NetworkId) -> Schnorr<H> {
    Schnorr { variant: "legacy", domain: network_id, _p: PhantomData }
}
pub fn create_kimchi<H: Hashable<D = NetworkId>>(network_id: NetworkId) -> Schnorr<H> {
    Schnorr { variant: "kimchi", domain: network_id, _p: PhantomData }
}

//! Stand-in for ark-ff 0.3: 256 bit integers and prime fields in canonical form.
use num_bigint::BigUint;
pub use num_traits::{One, Zero};
use std::fmt;
use std::io::{Read, Result as IoResult, Write};
use std::marker::PhantomData;
use std::ops::*;

pub mod bytes {
    use super::*;
    pub trait ToBytes {
        fn write<W: Write>(&self, writer: W) -> IoResult<()>;
    }
    pub trait FromBytes: Sized {
        fn read<R: Read>(reader: R) -> IoResult<Self>;
    }
}
pub use bytes::{FromBytes, ToBytes};

pub mod biginteger {
    pub use super::{BigInteger, BigInteger256};
}
pub mod fields {
    pub use super::{Field, FpParameters, PrimeField};
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct BigInteger256(pub [u64; 4]);
impl BigInteger256 {
    pub const fn new(v: [u64; 4]) -> Self {
        Self(v)
    }
}
impl Ord for BigInteger256 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl PartialOrd for BigInteger256 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
pub trait BigInteger: Copy + Ord + Default + From<u64> {
    fn muln(&mut self, amt: u32);
    fn divn(&mut self, amt: u32);
    fn mul2(&mut self) {
        self.muln(1)
    }
    fn div2(&mut self) {
        self.divn(1)
    }
    fn is_zero(&self) -> bool;
    fn is_odd(&self) -> bool;
    fn is_even(&self) -> bool {
        !self.is_odd()
    }
    fn num_bits(&self) -> u32;
    fn get_bit(&self, i: usize) -> bool;
    fn to_bytes_le(&self) -> Vec<u8>;
    fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    fn to_bits_le(&self) -> Vec<bool> {
        (0..256).map(|i| self.get_bit(i)).collect()
    }
}
impl BigInteger for BigInteger256 {
    fn muln(&mut self, amt: u32) {
        let (l, b) = ((amt / 64) as usize, amt % 64);
        let at = |i: usize, k: usize| if i < k { 0 } else { self.0[i - k] };
        let mut o = [0u64; 4];
        for i in 0..4 {
            o[i] = at(i, l) << b | if b == 0 { 0 } else { at(i, l + 1) >> (64 - b) };
        }
        self.0 = o;
    }
    fn divn(&mut self, amt: u32) {
        let b: BigUint = (*self).into();
        *self = trunc(b >> amt as usize);
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn num_bits(&self) -> u32 {
        let b: BigUint = (*self).into();
        b.bits() as u32
    }
    fn get_bit(&self, i: usize) -> bool {
        i < 256 && (self.0[i / 64] >> (i % 64)) & 1 == 1
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.0.iter().flat_map(|l| l.to_le_bytes()).collect()
    }
}
fn trunc(b: BigUint) -> BigInteger256 {
    let d = b.to_u64_digits();
    let mut o = [0; 4];
    for (i, x) in d.into_iter().take(4).enumerate() {
        o[i] = x;
    }
    BigInteger256(o)
}
impl From<u64> for BigInteger256 {
    fn from(x: u64) -> Self {
        Self([x, 0, 0, 0])
    }
}
impl From<BigInteger256> for BigUint {
    fn from(x: BigInteger256) -> BigUint {
        BigUint::from_bytes_le(&x.to_bytes_le())
    }
}
impl TryFrom<BigUint> for BigInteger256 {
    type Error = String;
    fn try_from(b: BigUint) -> Result<Self, String> {
        if b.bits() > 256 {
            Err("integer does not fit 256 bits".into())
        } else {
            Ok(trunc(b))
        }
    }
}
impl fmt::Display for BigInteger256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for l in self.0.iter().rev() {
            write!(f, "{:016X}", l)?;
        }
        Ok(())
    }
}
impl ToBytes for BigInteger256 {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        w.write_all(&self.to_bytes_le())
    }
}
impl FromBytes for BigInteger256 {
    fn read<R: Read>(mut r: R) -> IoResult<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        let mut o = [0; 4];
        for i in 0..4 {
            o[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        Ok(Self(o))
    }
}

pub trait FpParameters {
    const MODULUS: BigInteger256;
    const MODULUS_BITS: u32 = 255;
}
pub trait Field:
    Copy + Clone + Eq + Ord + Default + Zero + One + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> + From<u64> + fmt::Debug
{
}
pub trait PrimeField: Field + From<BigInteger256> + Into<BigInteger256> {
    fn size_in_bits() -> usize;
    fn from_repr(r: BigInteger256) -> Option<Self>;
    fn into_repr(&self) -> BigInteger256;
    fn from_le_bytes_mod_order(b: &[u8]) -> Self;
}

pub struct Fp256<P>(BigInteger256, PhantomData<P>);
impl<P: FpParameters> Fp256<P> {
    fn modulus() -> BigUint {
        P::MODULUS.into()
    }
    fn big(&self) -> BigUint {
        self.0.into()
    }
    fn red(b: BigUint) -> Self {
        Self(trunc(b % Self::modulus()), PhantomData)
    }
}
impl<P> Clone for Fp256<P> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<P> Copy for Fp256<P> {}
impl<P> PartialEq for Fp256<P> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<P> Eq for Fp256<P> {}
impl<P> Ord for Fp256<P> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<P> PartialOrd for Fp256<P> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<P> std::hash::Hash for Fp256<P> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<P> Default for Fp256<P> {
    fn default() -> Self {
        Self(BigInteger256([0; 4]), PhantomData)
    }
}
impl<P> fmt::Debug for Fp256<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<P> fmt::Display for Fp256<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<P: FpParameters> Add for Fp256<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        // both are below the modulus, which is below 2^255
        let (a, b, m) = (self.0 .0, o.0 .0, P::MODULUS.0);
        let (mut r, mut c) = ([0u64; 4], 0u128);
        for i in 0..4 {
            c += a[i] as u128 + b[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        if BigInteger256(r) >= P::MODULUS {
            let mut borrow = 0u64;
            for i in 0..4 {
                let (x, p) = r[i].overflowing_sub(m[i]);
                let (x, q) = x.overflowing_sub(borrow);
                r[i] = x;
                borrow = (p | q) as u64;
            }
        }
        Self(BigInteger256(r), PhantomData)
    }
}
impl<P: FpParameters> Sub for Fp256<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Self::red(self.big() + Self::modulus() - o.big())
    }
}
impl<P: FpParameters> Mul for Fp256<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Self::red(self.big() * o.big())
    }
}
impl<P: FpParameters> Neg for Fp256<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::red(Self::modulus() - self.big())
    }
}
impl<P: FpParameters> AddAssign for Fp256<P> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<P: FpParameters> SubAssign for Fp256<P> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<P: FpParameters> MulAssign for Fp256<P> {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o
    }
}
impl<P: FpParameters> Zero for Fp256<P> {
    fn zero() -> Self {
        Self::default()
    }
    fn is_zero(&self) -> bool {
        BigInteger::is_zero(&self.0)
    }
}
impl<P: FpParameters> One for Fp256<P> {
    fn one() -> Self {
        Self(1u64.into(), PhantomData)
    }
}
macro_rules! small {
    ($($t:ty),*) => { $(impl<P: FpParameters> From<$t> for Fp256<P> {
        fn from(x: $t) -> Self { Self((x as u64).into(), PhantomData) }
    })* };
}
small!(u64, u32, u16, u8, bool);
impl<P: FpParameters> From<u128> for Fp256<P> {
    fn from(x: u128) -> Self {
        Self(BigInteger256([x as u64, (x >> 64) as u64, 0, 0]), PhantomData)
    }
}
impl<P: FpParameters> From<BigInteger256> for Fp256<P> {
    fn from(x: BigInteger256) -> Self {
        Self::from_repr(x).unwrap()
    }
}
impl<P: FpParameters> From<Fp256<P>> for BigInteger256 {
    fn from(x: Fp256<P>) -> Self {
        x.0
    }
}
impl<P: FpParameters> From<Fp256<P>> for BigUint {
    fn from(x: Fp256<P>) -> Self {
        x.0.into()
    }
}
impl<P: FpParameters> Field for Fp256<P> {}
impl<P: FpParameters> PrimeField for Fp256<P> {
    fn size_in_bits() -> usize {
        P::MODULUS_BITS as usize
    }
    fn from_repr(r: BigInteger256) -> Option<Self> {
        if r < P::MODULUS {
            Some(Self(r, PhantomData))
        } else {
            None
        }
    }
    fn into_repr(&self) -> BigInteger256 {
        self.0
    }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        Self::red(BigUint::from_bytes_le(b))
    }
}
impl<P: FpParameters> ToBytes for Fp256<P> {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        self.0.write(w)
    }
}
impl<P: FpParameters> FromBytes for Fp256<P> {
    fn read<R: Read>(r: R) -> IoResult<Self> {
        BigInteger256::read(r).and_then(|b| {
            Self::from_repr(b).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, "FromBytes::read failed"))
        })
    }
}

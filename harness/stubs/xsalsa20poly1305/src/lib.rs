//! XSalsa20Poly1305 (NaCl secretbox) behind the part of the xsalsa20poly1305 0.9 interface that is used.
use generic_array::typenum::{U24, U32};
use generic_array::GenericArray;
pub type Key = GenericArray<u8, U32>;
pub type Nonce = GenericArray<u8, U24>;
pub mod aead {
    pub use generic_array;
    use generic_array::typenum::U24;
    use generic_array::GenericArray;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("aead::Error")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    pub struct Payload<'m>(pub &'m [u8]);
    impl<'m> From<&'m [u8]> for Payload<'m> {
        fn from(m: &'m [u8]) -> Self {
            Self(m)
        }
    }
    pub trait Aead {
        fn encrypt<'m, 'a>(&self, nonce: &GenericArray<u8, U24>, plaintext: impl Into<Payload<'m>>) -> Result<Vec<u8>>;
        fn decrypt<'m, 'a>(&self, nonce: &GenericArray<u8, U24>, ciphertext: impl Into<Payload<'m>>) -> Result<Vec<u8>>;
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct InvalidLength;
impl std::fmt::Display for InvalidLength {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Invalid Length")
    }
}
impl std::error::Error for InvalidLength {}
pub trait KeyInit: Sized {
    fn new(key: &Key) -> Self;
    fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength> {
        if key.len() != 32 {
            return Err(InvalidLength);
        }
        Ok(Self::new(GenericArray::from_slice(key)))
    }
}
const SIGMA: [u32; 4] = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574];
fn words(b: &[u8]) -> Vec<u32> {
    b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}
fn state(k: &[u32], n: &[u32]) -> [u32; 16] {
    [SIGMA[0], k[0], k[1], k[2], k[3], SIGMA[1], n[0], n[1], n[2], n[3], SIGMA[2], k[4], k[5], k[6], k[7], SIGMA[3]]
}
fn rounds(mut x: [u32; 16]) -> [u32; 16] {
    fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
        x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
        x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
        x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
    }
    for _ in 0..10 {
        for (a, b, c, d) in [(0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11), (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)] {
            qr(&mut x, a, b, c, d);
        }
    }
    x
}
fn stream(key: &[u8], nonce: &[u8], len: usize) -> Vec<u8> {
    let h = rounds(state(&words(key), &words(&nonce[..16])));
    let k: Vec<u32> = [0, 5, 10, 15, 6, 7, 8, 9].iter().map(|i| h[*i]).collect();
    let n = words(&nonce[16..]);
    let mut o = vec![];
    let mut ctr = 0u64;
    while o.len() < len {
        let s = state(&k, &[n[0], n[1], ctr as u32, (ctr >> 32) as u32]);
        let r = rounds(s);
        for i in 0..16 {
            o.extend(r[i].wrapping_add(s[i]).to_le_bytes());
        }
        ctr += 1;
    }
    o.truncate(len);
    o
}
/// Poly1305, limbs of 26 bits
fn poly1305(key: &[u8], m: &[u8]) -> [u8; 16] {
    let limbs = |b: &[u8; 17]| -> [u64; 5] {
        let mut o = [0; 5];
        for bit in 0..136 {
            if b[bit / 8] >> (bit % 8) & 1 == 1 {
                o[(bit / 26).min(4)] |= 1 << (bit - 26 * (bit / 26).min(4));
            }
        }
        o
    };
    let mut rb = [0u8; 17];
    rb[..16].copy_from_slice(&key[..16]);
    for i in [3, 7, 11, 15] {
        rb[i] &= 15;
    }
    for i in [4, 8, 12] {
        rb[i] &= 252;
    }
    let r = limbs(&rb);
    let mut h = [0u64; 5];
    for c in m.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        let x = limbs(&b);
        for i in 0..5 {
            h[i] += x[i];
        }
        let mut d = [0u128; 5];
        for i in 0..5 {
            for j in 0..5 {
                let f = if i + j >= 5 { 5 } else { 1 };
                d[(i + j) % 5] += h[i] as u128 * r[j] as u128 * f;
            }
        }
        let mut carry = 0u128;
        for i in 0..5 {
            d[i] += carry;
            carry = d[i] >> 26;
            h[i] = (d[i] & 0x3ffffff) as u64;
        }
        h[0] += (carry * 5) as u64;
        for i in 0..4 {
            let c = h[i] >> 26;
            h[i] &= 0x3ffffff;
            h[i + 1] += c;
        }
    }
    for _ in 0..2 {
        let c = h[4] >> 26;
        h[4] &= 0x3ffffff;
        h[0] += c * 5;
        for i in 0..4 {
            let c = h[i] >> 26;
            h[i] &= 0x3ffffff;
            h[i + 1] += c;
        }
    }
    // h - (2^130 - 5) if that is not negative
    let mut g = h;
    g[0] += 5;
    for i in 0..4 {
        let c = g[i] >> 26;
        g[i] &= 0x3ffffff;
        g[i + 1] += c;
    }
    if g[4] >> 26 != 0 {
        g[4] &= 0x3ffffff;
        h = g;
    }
    let mut o = [0u8; 16];
    let mut acc = 0u128;
    for i in 0..5 {
        acc = acc.wrapping_add((h[i] as u128) << (26 * i));
    }
    acc = acc.wrapping_add(u128::from_le_bytes(key[16..32].try_into().unwrap()));
    o.copy_from_slice(&acc.to_le_bytes());
    o
}
#[derive(Clone)]
pub struct XSalsa20Poly1305([u8; 32]);
impl KeyInit for XSalsa20Poly1305 {
    fn new(key: &Key) -> Self {
        Self(key.as_slice().try_into().unwrap())
    }
}
impl XSalsa20Poly1305 {
    pub const KEY_SIZE: usize = 32;
    pub const NONCE_SIZE: usize = 24;
    pub const TAG_SIZE: usize = 16;
}
impl aead::Aead for XSalsa20Poly1305 {
    fn encrypt<'m, 'a>(&self, nonce: &Nonce, m: impl Into<aead::Payload<'m>>) -> aead::Result<Vec<u8>> {
        let m = m.into().0;
        let s = stream(&self.0, nonce, 32 + m.len());
        let c: Vec<u8> = m.iter().zip(&s[32..]).map(|(a, b)| a ^ b).collect();
        let mut o = poly1305(&s[..32], &c).to_vec();
        o.extend(c);
        Ok(o)
    }
    fn decrypt<'m, 'a>(&self, nonce: &Nonce, c: impl Into<aead::Payload<'m>>) -> aead::Result<Vec<u8>> {
        let c = c.into().0;
        if c.len() < 16 {
            return Err(aead::Error);
        }
        let s = stream(&self.0, nonce, 16 + c.len());
        if poly1305(&s[..32], &c[16..]) != c[..16] {
            return Err(aead::Error);
        }
        Ok(c[16..].iter().zip(&s[32..]).map(|(a, b)| a ^ b).collect())
    }
}

//! Stand-in for bs58 0.4 (bitcoin alphabet, base58check), same interface and results.
use sha2::{Digest, Sha256};
const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn checksum(b: &[u8]) -> [u8; 4] {
    let h = Sha256::digest(Sha256::digest(b));
    [h[0], h[1], h[2], h[3]]
}
fn enc(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut digits: Vec<u8> = vec![];
    for &x in b {
        let mut carry = x as u32;
        for d in digits.iter_mut() {
            carry += (*d as u32) << 8;
            *d = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 {
            digits.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let mut s: Vec<u8> = vec![b'1'; zeros];
    s.extend(digits.iter().rev().map(|d| ALPHABET[*d as usize]));
    String::from_utf8(s).unwrap()
}
fn dec(s: &[u8]) -> Result<Vec<u8>, decode::Error> {
    let zeros = s.iter().take_while(|x| **x == b'1').count();
    let mut bytes: Vec<u8> = vec![];
    for (i, c) in s.iter().enumerate() {
        if *c > 127 {
            return Err(decode::Error::NonAsciiCharacter { index: i });
        }
        let v = ALPHABET
            .iter()
            .position(|a| a == c)
            .ok_or(decode::Error::InvalidCharacter { character: *c as char, index: i })?;
        let mut carry = v as u32;
        for b in bytes.iter_mut() {
            carry += *b as u32 * 58;
            *b = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            bytes.push(carry as u8);
            carry >>= 8;
        }
    }
    let mut o = vec![0; zeros];
    o.extend(bytes.iter().rev());
    Ok(o)
}
pub mod decode {
    use std::fmt;
    #[derive(Copy, Clone, Debug, Eq, PartialEq)]
    #[non_exhaustive]
    pub enum Error {
        BufferTooSmall,
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
        InvalidChecksum { checksum: [u8; 4], expected_checksum: [u8; 4] },
        InvalidVersion { ver: u8, expected_ver: u8 },
        NoChecksum,
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{:?}", self)
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    pub struct DecodeBuilder<'a, I: AsRef<[u8]>> {
        pub(crate) input: I,
        pub(crate) check: Option<Option<u8>>,
        pub(crate) _p: std::marker::PhantomData<&'a ()>,
    }
    impl<'a, I: AsRef<[u8]>> DecodeBuilder<'a, I> {
        pub fn with_check(mut self, ver: Option<u8>) -> Self {
            self.check = Some(ver);
            self
        }
        pub fn into_vec(self) -> Result<Vec<u8>> {
            let mut v = super::dec(self.input.as_ref())?;
            if let Some(ver) = self.check {
                if v.len() < 4 {
                    return Err(Error::NoChecksum);
                }
                let at = v.len() - 4;
                let c: [u8; 4] = [v[at], v[at + 1], v[at + 2], v[at + 3]];
                let e = super::checksum(&v[..at]);
                if c != e {
                    return Err(Error::InvalidChecksum { checksum: c, expected_checksum: e });
                }
                v.truncate(at);
                if let Some(ver) = ver {
                    if v.first() != Some(&ver) {
                        return Err(Error::InvalidVersion { ver: v.first().copied().unwrap_or(0), expected_ver: ver });
                    }
                }
            }
            Ok(v)
        }
    }
}
pub mod encode {
    pub struct EncodeBuilder<'a, I: AsRef<[u8]>> {
        pub(crate) input: I,
        pub(crate) check: Option<Option<u8>>,
        pub(crate) _p: std::marker::PhantomData<&'a ()>,
    }
    impl<'a, I: AsRef<[u8]>> EncodeBuilder<'a, I> {
        pub fn with_check(mut self) -> Self {
            self.check = Some(None);
            self
        }
        pub fn with_check_version(mut self, ver: u8) -> Self {
            self.check = Some(Some(ver));
            self
        }
        pub fn into_string(self) -> String {
            let mut v = vec![];
            if let Some(Some(ver)) = self.check {
                v.push(ver);
            }
            v.extend_from_slice(self.input.as_ref());
            if self.check.is_some() {
                let c = super::checksum(&v);
                v.extend(c);
            }
            super::enc(&v)
        }
        pub fn into_vec(self) -> Vec<u8> {
            self.into_string().into_bytes()
        }
    }
}
pub fn decode<'a, I: AsRef<[u8]>>(input: I) -> decode::DecodeBuilder<'a, I> {
    decode::DecodeBuilder { input, check: None, _p: Default::default() }
}
pub fn encode<'a, I: AsRef<[u8]>>(input: I) -> encode::EncodeBuilder<'a, I> {
    encode::EncodeBuilder { input, check: None, _p: Default::default() }
}

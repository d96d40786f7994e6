//! Stand-in for base64 0.13 (padding optional when decoding, trailing bits must be zero).
use std::fmt;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Config {
    url: bool,
    pad: bool,
}
pub const STANDARD: Config = Config { url: false, pad: true };
pub const STANDARD_NO_PAD: Config = Config { url: false, pad: false };
pub const URL_SAFE: Config = Config { url: true, pad: true };
pub const URL_SAFE_NO_PAD: Config = Config { url: true, pad: false };
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for DecodeError {}
fn alphabet(c: Config) -> Vec<u8> {
    let mut a: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').collect();
    a.extend(if c.url { b"-_" } else { b"+/" });
    a
}
pub fn encode_config<T: AsRef<[u8]>>(input: T, c: Config) -> String {
    let a = alphabet(c);
    let mut o = vec![];
    for ch in input.as_ref().chunks(3) {
        let mut x = 0u32;
        for i in 0..3 {
            x = (x << 8) | *ch.get(i).unwrap_or(&0) as u32;
        }
        for i in 0..4 {
            if i <= ch.len() {
                o.push(a[((x >> (18 - 6 * i)) & 63) as usize]);
            } else if c.pad {
                o.push(b'=');
            }
        }
    }
    String::from_utf8(o).unwrap()
}
pub fn decode_config<T: AsRef<[u8]>>(input: T, c: Config) -> Result<Vec<u8>, DecodeError> {
    let a = alphabet(c);
    let s = input.as_ref();
    let end = s.iter().position(|x| *x == b'=').unwrap_or(s.len());
    for (i, x) in s.iter().enumerate().skip(end) {
        if *x != b'=' || end % 4 < 2 || i - end >= 4 - end % 4 {
            return Err(DecodeError::InvalidByte(i, *x));
        }
    }
    if end % 4 == 1 {
        return Err(DecodeError::InvalidLength);
    }
    let mut o = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for (i, x) in s[..end].iter().enumerate() {
        let v = a.iter().position(|y| y == x).ok_or(DecodeError::InvalidByte(i, *x))? as u32;
        acc = (acc << 6) | v;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    if acc != 0 {
        return Err(DecodeError::InvalidLastSymbol(end - 1, s[end - 1]));
    }
    Ok(o)
}
pub fn encode<T: AsRef<[u8]>>(input: T) -> String {
    encode_config(input, STANDARD)
}
pub fn decode<T: AsRef<[u8]>>(input: T) -> Result<Vec<u8>, DecodeError> {
    decode_config(input, STANDARD)
}

//! Argon2 (RFC 9106) behind the part of the argon2 0.4 interface that is used.
use blake2::digest::{Update, VariableOutput};
use blake2::Blake2bVar;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Algorithm {
    Argon2d = 0,
    Argon2i = 1,
    #[default]
    Argon2id = 2,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Version {
    V0x10 = 0x10,
    #[default]
    V0x13 = 0x13,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum Error {
    AdTooLong,
    AlgorithmInvalid,
    B64Encoding,
    KeyIdTooLong,
    MemoryTooLittle,
    MemoryTooMuch,
    OutputTooShort,
    OutputTooLong,
    PwdTooLong,
    SaltTooShort,
    SaltTooLong,
    SecretTooLong,
    ThreadsTooFew,
    ThreadsTooMany,
    TimeTooSmall,
    VersionInvalid,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
impl From<Error> for password_hash::Error {
    fn from(_: Error) -> Self {
        password_hash::Error::ParamValueInvalid
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Params {
    m: u32,
    t: u32,
    p: u32,
    out: Option<usize>,
}
impl Params {
    pub const DEFAULT_M_COST: u32 = 4096;
    pub const MIN_M_COST: u32 = 8;
    pub const DEFAULT_T_COST: u32 = 3;
    pub const DEFAULT_P_COST: u32 = 1;
    pub const DEFAULT_OUTPUT_LEN: usize = 32;
    pub fn new(m: u32, t: u32, p: u32, out: Option<usize>) -> Result<Self> {
        let mut b = ParamsBuilder::new();
        b.m_cost(m)?.t_cost(t)?.p_cost(p)?;
        b.0.out = out;
        b.params()
    }
    pub fn m_cost(&self) -> u32 {
        self.m
    }
    pub fn t_cost(&self) -> u32 {
        self.t
    }
}
impl Default for Params {
    fn default() -> Self {
        Params { m: 4096, t: 3, p: 1, out: None }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ParamsBuilder(Params);
impl ParamsBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn m_cost(&mut self, m: u32) -> Result<&mut Self> {
        if m < Params::MIN_M_COST {
            return Err(Error::MemoryTooLittle);
        }
        self.0.m = m;
        Ok(self)
    }
    pub fn t_cost(&mut self, t: u32) -> Result<&mut Self> {
        if t < 1 {
            return Err(Error::TimeTooSmall);
        }
        self.0.t = t;
        Ok(self)
    }
    pub fn p_cost(&mut self, p: u32) -> Result<&mut Self> {
        if p < 1 {
            return Err(Error::ThreadsTooFew);
        }
        self.0.p = p;
        Ok(self)
    }
    pub fn output_len(&mut self, n: usize) -> Result<&mut Self> {
        if n < 4 {
            return Err(Error::OutputTooShort);
        }
        self.0.out = Some(n);
        Ok(self)
    }
    pub fn params(self) -> Result<Params> {
        if self.0.m < self.0.p * 8 {
            return Err(Error::MemoryTooLittle);
        }
        Ok(self.0)
    }
}

fn blake2b(parts: &[&[u8]], n: usize) -> Vec<u8> {
    let mut h = <Blake2bVar as VariableOutput>::new(n).unwrap();
    for p in parts {
        h.update(p);
    }
    let mut o = vec![0; n];
    h.finalize_variable(&mut o).unwrap();
    o
}
fn hprime(parts: &[&[u8]], n: usize) -> Vec<u8> {
    let len = (n as u32).to_le_bytes();
    let mut all: Vec<&[u8]> = vec![&len];
    all.extend(parts);
    if n <= 64 {
        return blake2b(&all, n);
    }
    let mut v = blake2b(&all, 64);
    let mut o = v[..32].to_vec();
    while n - o.len() > 64 {
        v = blake2b(&[&v], 64);
        o.extend(&v[..32]);
    }
    let rest = n - o.len();
    o.extend(blake2b(&[&v], rest));
    o
}
type Block = [u64; 128];
fn load(b: &[u8]) -> Block {
    let mut o = [0; 128];
    for (i, c) in b.chunks(8).enumerate() {
        o[i] = u64::from_le_bytes(c.try_into().unwrap());
    }
    o
}
fn xor(a: &Block, b: &Block) -> Block {
    let mut o = *a;
    for i in 0..128 {
        o[i] ^= b[i];
    }
    o
}
fn gb(v: &mut Block, a: usize, b: usize, c: usize, d: usize) {
    let f = |x: u64, y: u64| x.wrapping_add(y).wrapping_add(2u64.wrapping_mul((x & 0xffffffff).wrapping_mul(y & 0xffffffff)));
    v[a] = f(v[a], v[b]);
    v[d] = (v[d] ^ v[a]).rotate_right(32);
    v[c] = f(v[c], v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(24);
    v[a] = f(v[a], v[b]);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = f(v[c], v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(63);
}
fn permute(v: &mut Block, i: [usize; 16]) {
    for (a, b, c, d) in [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)] {
        gb(v, i[a], i[b], i[c], i[d]);
    }
}
fn compress(x: &Block, y: &Block) -> Block {
    let r = xor(x, y);
    let mut q = r;
    for i in 0..8 {
        permute(&mut q, std::array::from_fn(|j| 16 * i + j));
    }
    for i in 0..8 {
        permute(&mut q, std::array::from_fn(|j| 2 * i + 16 * (j / 2) + j % 2));
    }
    xor(&q, &r)
}
pub fn derive(alg: Algorithm, ver: Version, m: u32, t: u32, p: u32, pwd: &[u8], salt: &[u8], n: usize) -> Vec<u8> {
    let le = |x: usize| (x as u32).to_le_bytes();
    let h0 = blake2b(
        &[&le(p as usize), &le(n), &le(m as usize), &le(t as usize), &le(ver as usize), &le(alg as usize), &le(pwd.len()), pwd, &le(salt.len()), salt, &le(0), &le(0)],
        64,
    );
    let p = p as usize;
    let q = (m as usize / (4 * p)) * 4;
    let seg = q / 4;
    let mut mem: Vec<Block> = vec![[0; 128]; q * p];
    for lane in 0..p {
        for j in 0..2 {
            mem[lane * q + j] = load(&hprime(&[&h0, &le(j), &le(lane)], 1024));
        }
    }
    for pass in 0..t as usize {
        for slice in 0..4 {
            for lane in 0..p {
                let indep = alg == Algorithm::Argon2i || (alg == Algorithm::Argon2id && pass == 0 && slice < 2);
                let mut input = [0u64; 128];
                let mut addr = [0u64; 128];
                let zero = [0u64; 128];
                if indep {
                    input[0] = pass as u64;
                    input[1] = lane as u64;
                    input[2] = slice as u64;
                    input[3] = (q * p) as u64;
                    input[4] = t as u64;
                    input[5] = alg as u64;
                }
                let next = |input: &mut Block| {
                    input[6] += 1;
                    compress(&zero, &compress(&zero, input))
                };
                let start = if pass == 0 && slice == 0 { 2 } else { 0 };
                if indep && start == 2 {
                    addr = next(&mut input);
                }
                for i in start..seg {
                    if indep && i % 128 == 0 {
                        addr = next(&mut input);
                    }
                    let col = slice * seg + i;
                    let prev = lane * q + (col + q - 1) % q;
                    let r = if indep { addr[i % 128] } else { mem[prev][0] };
                    let rl = if pass == 0 && slice == 0 { lane } else { (r >> 32) as usize % p };
                    let area = if pass == 0 {
                        if slice == 0 {
                            i - 1
                        } else if rl == lane {
                            slice * seg + i - 1
                        } else {
                            slice * seg - (i == 0) as usize
                        }
                    } else if rl == lane {
                        q - seg + i - 1
                    } else {
                        q - seg - (i == 0) as usize
                    } as u64;
                    let j1 = r & 0xffffffff;
                    let x = (j1 * j1) >> 32;
                    let rel = area - 1 - ((area * x) >> 32);
                    let first = if pass != 0 && slice != 3 { (slice + 1) * seg } else { 0 };
                    let refcol = (first + rel as usize) % q;
                    let b = compress(&mem[prev], &mem[rl * q + refcol]);
                    let at = lane * q + col;
                    mem[at] = if pass == 0 || ver == Version::V0x10 { b } else { xor(&b, &mem[at]) };
                }
            }
        }
    }
    let mut f = mem[q - 1];
    for lane in 1..p {
        f = xor(&f, &mem[lane * q + q - 1]);
    }
    let bytes: Vec<u8> = f.iter().flat_map(|w| w.to_le_bytes()).collect();
    hprime(&[&bytes], n)
}

#[derive(Clone)]
pub struct Argon2<'key> {
    alg: Algorithm,
    ver: Version,
    params: Params,
    _p: std::marker::PhantomData<&'key ()>,
}
impl<'key> Argon2<'key> {
    pub fn new(alg: Algorithm, ver: Version, params: Params) -> Self {
        Self { alg, ver, params, _p: Default::default() }
    }
    pub fn hash_password_into(&self, pwd: &[u8], salt: &[u8], out: &mut [u8]) -> Result<()> {
        if out.len() < 4 {
            return Err(Error::OutputTooShort);
        }
        if salt.len() < 8 {
            return Err(Error::SaltTooShort);
        }
        let p = &self.params;
        out.copy_from_slice(&derive(self.alg, self.ver, p.m, p.t, p.p, pwd, salt, out.len()));
        Ok(())
    }
}
pub mod password_hash {
    use std::fmt;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[non_exhaustive]
    pub enum Error {
        B64Invalid,
        SaltTooShort,
        SaltTooLong,
        ParamValueInvalid,
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{:?}", self)
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    const TABLE: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    /// Salt of at most 64 characters (unpadded base64)
    #[derive(Clone, PartialEq, Eq)]
    pub struct SaltString(String);
    impl SaltString {
        pub fn new(s: &str) -> Result<Self> {
            if s.len() < 4 {
                return Err(Error::SaltTooShort);
            }
            if s.len() > 64 {
                return Err(Error::SaltTooLong);
            }
            Ok(Self(s.to_string()))
        }
        pub fn b64_encode(b: &[u8]) -> Result<Self> {
            let mut s = String::new();
            for c in b.chunks(3) {
                let n = c.iter().fold(0u32, |a, x| a << 8 | *x as u32) << (8 * (3 - c.len()));
                for i in 0..=c.len() {
                    s.push(TABLE[(n >> (18 - 6 * i)) as usize & 63] as char);
                }
            }
            if s.len() > 64 {
                return Err(Error::SaltTooLong);
            }
            Ok(Self(s))
        }
        pub fn b64_decode<'a>(&self, buf: &'a mut [u8]) -> Result<&'a [u8]> {
            let mut v = vec![];
            let (mut acc, mut n) = (0u32, 0);
            for c in self.0.bytes() {
                acc = acc << 6 | TABLE.iter().position(|x| *x == c).ok_or(Error::B64Invalid)? as u32;
                n += 6;
                if n >= 8 {
                    n -= 8;
                    v.push((acc >> n) as u8);
                }
            }
            let o = buf.get_mut(..v.len()).ok_or(Error::B64Invalid)?;
            o.copy_from_slice(&v);
            Ok(o)
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
    }
    impl AsRef<str> for SaltString {
        fn as_ref(&self) -> &str {
            &self.0
        }
    }
    impl fmt::Debug for SaltString {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "SaltString({:?})", self.0)
        }
    }
    impl fmt::Display for SaltString {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Output(pub(crate) Vec<u8>);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
    }
    impl AsRef<[u8]> for Output {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    pub struct PasswordHash<'a> {
        pub hash: Option<Output>,
        pub salt: Option<&'a str>,
    }
    pub trait PasswordHasher {
        fn hash_password<'a, S: AsRef<str> + ?Sized>(&self, password: &[u8], salt: &'a S) -> Result<PasswordHash<'a>>;
    }
}
pub use password_hash::{PasswordHash, PasswordHasher};
impl<'key> PasswordHasher for Argon2<'key> {
    fn hash_password<'a, S: AsRef<str> + ?Sized>(&self, password: &[u8], salt: &'a S) -> password_hash::Result<PasswordHash<'a>> {
        let s = password_hash::SaltString::new(salt.as_ref())?;
        let mut buf = [0; 64];
        let bytes = s.b64_decode(&mut buf)?;
        let mut o = vec![0; self.params.out.unwrap_or(32)];
        self.hash_password_into(password, bytes, &mut o).map_err(|e| if e == Error::SaltTooShort { password_hash::Error::SaltTooShort } else { e.into() })?;
        Ok(PasswordHash { hash: Some(password_hash::Output(o)), salt: Some(salt.as_ref()) })
    }
}

//! Stand-in for protobuf 3: the trait and the wire format of its scalar fields.
#[derive(Debug, Clone, PartialEq)]
pub struct Error(pub &'static str);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub trait Message: Sized {
    fn write_to_bytes(&self) -> Result<Vec<u8>>;
    fn parse_from_bytes(b: &[u8]) -> Result<Self>;
}
pub mod rt {
    use super::*;
    pub fn varint(mut v: u64, o: &mut Vec<u8>) {
        while v >= 0x80 {
            o.push(v as u8 | 0x80);
            v >>= 7;
        }
        o.push(v as u8);
    }
    pub fn string(field: u64, v: &str, o: &mut Vec<u8>) {
        if !v.is_empty() {
            varint(field << 3 | 2, o);
            varint(v.len() as u64, o);
            o.extend_from_slice(v.as_bytes());
        }
    }
    pub fn number(field: u64, v: u64, o: &mut Vec<u8>) {
        if v != 0 {
            varint(field << 3, o);
            varint(v, o);
        }
    }
    pub enum Field<'a> {
        Number(u64),
        Bytes(&'a [u8]),
        Other,
    }
    fn read(b: &mut &[u8]) -> Result<u64> {
        let mut v = 0u64;
        for i in 0..10 {
            let (x, rest) = b.split_first().ok_or(Error("truncated"))?;
            *b = rest;
            v |= ((x & 0x7f) as u64) << (7 * i);
            if x & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(Error("varint too long"))
    }
    pub fn fields(mut b: &[u8]) -> Result<Vec<(u64, Field<'_>)>> {
        let mut o = vec![];
        while !b.is_empty() {
            let k = read(&mut b)?;
            let mut take = |n: usize| {
                if n > b.len() {
                    return Err(Error("truncated"));
                }
                let (x, rest) = b.split_at(n);
                b = rest;
                Ok(x)
            };
            if k >> 3 == 0 {
                return Err(Error("field 0"));
            }
            let f = match k & 7 {
                0 => Field::Number(read(&mut b)?),
                1 => take(8).map(|_| Field::Other)?,
                2 => {
                    let n = read(&mut b)?;
                    if n > b.len() as u64 {
                        return Err(Error("truncated"));
                    }
                    let (x, rest) = b.split_at(n as usize);
                    b = rest;
                    Field::Bytes(x)
                }
                5 => take(4).map(|_| Field::Other)?,
                _ => return Err(Error("wire type")),
            };
            o.push((k >> 3, f));
        }
        Ok(o)
    }
    pub fn text(f: &Field<'_>) -> Result<Option<String>> {
        match f {
            Field::Bytes(b) => String::from_utf8(b.to_vec()).map(Some).map_err(|_| Error("utf8")),
            _ => Ok(None),
        }
    }
}

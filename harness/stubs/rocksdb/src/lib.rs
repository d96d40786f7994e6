//! A key value store in memory behind the part of the rocksdb 0.19 interface that is used.
//! Reading it can be made to fail after some entries.
use std::fmt;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Error(String);
impl Error {
    pub fn into_string(self) -> String {
        self.0
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub enum Direction {
    Forward,
    Reverse,
}
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
pub struct DB {
    items: std::collections::BTreeMap<Vec<u8>, Vec<u8>>,
    fail: Option<Vec<u8>>,
}
pub struct DBIterator<'a> {
    items: Box<dyn Iterator<Item = (&'a Vec<u8>, &'a Vec<u8>)> + 'a>,
    fail: Option<&'a [u8]>,
    reverse: bool,
    done: bool,
}
impl<'a> Iterator for DBIterator<'a> {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.done {
            return None;
        }
        let n = self.items.next();
        if let (Some(f), false) = (self.fail, self.reverse) {
            if n.map_or(true, |(k, _)| &k[..] >= f) {
                self.done = true;
                return Some(Err(Error("Corruption: block checksum mismatch".into())));
            }
        }
        self.done = n.is_none();
        n.map(|(k, v)| Ok((k.clone().into_boxed_slice(), v.clone().into_boxed_slice())))
    }
}
impl DB {
    /// the entries, and the key from which on reading fails
    pub fn in_memory(items: impl IntoIterator<Item = (Vec<u8>, Vec<u8>)>, fail: Option<Vec<u8>>) -> Self {
        Self { items: items.into_iter().collect(), fail }
    }
    pub fn iterator(&self, mode: IteratorMode) -> DBIterator<'_> {
        let fail = self.fail.as_deref();
        let (items, reverse): (Box<dyn Iterator<Item = (&Vec<u8>, &Vec<u8>)>>, bool) = match mode {
            IteratorMode::Start => (Box::new(self.items.iter()), false),
            IteratorMode::End => (Box::new(self.items.iter().rev()), true),
            IteratorMode::From(k, Direction::Forward) => (Box::new(self.items.range(k.to_vec()..)), false),
            IteratorMode::From(k, Direction::Reverse) => (Box::new(self.items.range(..=k.to_vec()).rev()), true),
        };
        DBIterator { items, fail, reverse, done: false }
    }
    /// without a prefix extractor nothing bounds the iteration
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, prefix: P) -> DBIterator<'_> {
        self.iterator(IteratorMode::From(prefix.as_ref(), Direction::Forward))
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        if self.fail.as_deref().map_or(false, |f| key.as_ref() >= f) {
            return Err(Error("Corruption: block checksum mismatch".into()));
        }
        Ok(self.items.get(key.as_ref()).cloned())
    }
}

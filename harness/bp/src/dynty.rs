//! Run-time described Rust types: (de)serialization through serde exactly as `#[derive]`d code
//! would drive the bin-prot (de)serializer.  A value is its pre-order token stream.
use crate::io::*;
use crate::{bytes_of, err_class};
use bin_prot::error::Error;
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct,
    SerializeTupleVariant, Serializer,
};
use serde::{Deserialize, Deserializer, Serialize};
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt;

#[derive(Debug, Clone, Default)]
pub struct Var {
    pub s: String,
    pub n: &'static str,
    pub a: Vec<Ty>,
}
#[derive(Debug, Clone, Default)]
pub struct Ty {
    pub k: String,
    pub a: Vec<Ty>,
    pub v: Vec<Var>,
    pub names: &'static [&'static str],
}
#[derive(Debug, Clone, PartialEq)]
pub struct Tok {
    pub t: String,
    pub b: Vec<u8>,
    pub s: String,
}
pub fn tok(t: &str, b: Vec<u8>) -> Tok {
    Tok { t: t.to_string(), b, s: String::new() }
}
pub fn ntok(t: &str, b: Vec<u8>, s: &str) -> Tok {
    Tok { t: t.to_string(), b, s: s.to_string() }
}
pub fn toks_json(t: &[Tok]) -> J {
    J::Array(t.iter().map(|x| json!({"t": x.t, "b": x.b, "s": x.s})).collect())
}
pub fn toks_of(j: &J) -> Vec<Tok> {
    j.as_array()
        .map(|a| {
            a.iter()
                .map(|x| ntok(x["t"].as_str().unwrap(), bytes_of(&x["b"]), x["s"].as_str().unwrap_or("")))
                .collect()
        })
        .unwrap_or_default()
}

thread_local! {
    static INTERN: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new());
    static CUR: RefCell<Ty> = RefCell::new(Ty::default());
}
pub fn intern(s: &str) -> &'static str {
    INTERN.with(|m| {
        *m.borrow_mut()
            .entry(s.to_string())
            .or_insert_with(|| Box::leak(s.to_string().into_boxed_str()))
    })
}

pub fn ty_of(j: &J) -> Ty {
    let a: Vec<Ty> = j["a"]
        .as_array()
        .map(|x| x.iter().map(ty_of).collect())
        .unwrap_or_default();
    let v: Vec<Var> = j["v"]
        .as_array()
        .map(|x| {
            x.iter()
                .map(|v| Var {
                    s: v["s"].as_str().unwrap().to_string(),
                    n: intern(
                        &(match &v["n"] {
                            J::String(s) => s.clone(),
                            b => String::from_utf8(bytes_of(b)).unwrap(),
                        }),
                    ),
                    a: v["a"]
                        .as_array()
                        .map(|x| x.iter().map(ty_of).collect())
                        .unwrap_or_default(),
                })
                .collect()
        })
        .unwrap_or_default();
    let names: Vec<&'static str> = match j["f"].as_array() {
        Some(x) if !x.is_empty() => x.iter().map(|s| intern(s.as_str().unwrap())).collect(),
        _ => {
            if v.is_empty() {
                (0..a.len()).map(|i| intern(&format!("f{i}"))).collect()
            } else {
                v.iter().map(|v| v.n).collect()
            }
        }
    };
    Ty {
        k: j["k"].as_str().unwrap().to_string(),
        a,
        v,
        names: Box::leak(names.into_boxed_slice()),
    }
}

// ------------------------------------------------------------------ serialization
pub struct Node<'a> {
    pub ty: &'a Ty,
    pub toks: &'a [Tok],
    pub pos: &'a Cell<usize>,
}
impl<'a> Node<'a> {
    fn take(&self, t: &str) -> &'a Tok {
        let i = self.pos.get();
        self.pos.set(i + 1);
        let k = self.toks.get(i).expect("HARNESS token stream too short");
        if k.t != t {
            panic!("HARNESS token {} where {} expected", k.t, t)
        }
        k
    }
    fn at(&self, ty: &'a Ty) -> Node<'a> {
        Node { ty, toks: self.toks, pos: self.pos }
    }
}
fn i64_of(b: &[u8]) -> i64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(b);
    i64::from_le_bytes(x)
}
fn usize_of(b: &[u8]) -> usize {
    i64_of(b) as usize
}
impl<'a> Serialize for Node<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let ty = self.ty;
        match ty.k.as_str() {
            "unit" => {
                self.take("unit");
                s.serialize_unit()
            }
            "ustruct" => {
                self.take("unit");
                s.serialize_unit_struct("U")
            }
            "bool" => s.serialize_bool(self.take("bool").b[0] == 1),
            "char" => {
                let b = &self.take("char").b;
                let c = b.iter().rev().fold(0u32, |a, x| a << 8 | *x as u32);
                s.serialize_char(char::from_u32(c).expect("HARNESS char"))
            }
            "u8" => s.serialize_u8(self.take("u8").b[0]),
            "i8" => s.serialize_i8(i64_of(&self.take("int").b) as i8),
            "i16" => s.serialize_i16(i64_of(&self.take("int").b) as i16),
            "i32" => s.serialize_i32(i64_of(&self.take("int").b) as i32),
            "i64" => s.serialize_i64(i64_of(&self.take("int").b)),
            "u16" => s.serialize_u16(i64_of(&self.take("int").b) as u16),
            "u32" => s.serialize_u32(i64_of(&self.take("int").b) as u32),
            "u64" => s.serialize_u64(i64_of(&self.take("int").b) as u64),
            "f32" => {
                let mut x = [0u8; 4];
                x.copy_from_slice(&self.take("f32").b);
                s.serialize_f32(f32::from_le_bytes(x))
            }
            "f64" => {
                let mut x = [0u8; 8];
                x.copy_from_slice(&self.take("f64").b);
                s.serialize_f64(f64::from_le_bytes(x))
            }
            "str" => s.serialize_str(
                std::str::from_utf8(&self.take("str").b).expect("HARNESS utf8"),
            ),
            "opt" => {
                let i = self.pos.get();
                if self.toks.get(i).expect("HARNESS short").t == "none" {
                    self.take("none");
                    s.serialize_none()
                } else {
                    self.take("some");
                    s.serialize_some(&self.at(&ty.a[0]))
                }
            }
            "newtype" => s.serialize_newtype_struct("N", &self.at(&ty.a[0])),
            "seq" => {
                let n = usize_of(&self.take("seq").b);
                let mut q = s.serialize_seq(Some(n))?;
                for _ in 0..n {
                    q.serialize_element(&self.at(&ty.a[0]))?;
                }
                q.end()
            }
            "tuple" => {
                let mut q = s.serialize_tuple(ty.a.len())?;
                for t in &ty.a {
                    q.serialize_element(&self.at(t))?;
                }
                q.end()
            }
            "tstruct" => {
                let mut q = s.serialize_tuple_struct("T", ty.a.len())?;
                for t in &ty.a {
                    q.serialize_field(&self.at(t))?;
                }
                q.end()
            }
            "struct" => {
                let mut q = s.serialize_struct("S", ty.a.len())?;
                for (t, n) in ty.a.iter().zip(ty.names) {
                    q.serialize_field(n, &self.at(t))?;
                }
                q.end()
            }
            k @ ("enum" | "poly") => {
                let (name, i) = if k == "enum" {
                    ("E", self.take("var").b[0] as usize)
                } else {
                    let l = &self.take("poly").b;
                    let i = ty
                        .v
                        .iter()
                        .position(|v| v.n.as_bytes() == &l[..])
                        .expect("HARNESS label");
                    ("Polyvar", i)
                };
                let v = &ty.v[i];
                match v.s.as_str() {
                    "unit" => s.serialize_unit_variant(name, i as u32, v.n),
                    "newtype" => {
                        s.serialize_newtype_variant(name, i as u32, v.n, &self.at(&v.a[0]))
                    }
                    "tuple" => {
                        let mut q = s.serialize_tuple_variant(name, i as u32, v.n, v.a.len())?;
                        for t in &v.a {
                            q.serialize_field(&self.at(t))?;
                        }
                        q.end()
                    }
                    "struct" => {
                        let mut q = s.serialize_struct_variant(name, i as u32, v.n, v.a.len())?;
                        for (j, t) in v.a.iter().enumerate() {
                            q.serialize_field(intern(&format!("f{j}")), &self.at(t))?;
                        }
                        q.end()
                    }
                    _ => panic!("HARNESS variant shape"),
                }
            }
            k => panic!("HARNESS kind {k}"),
        }
    }
}

pub fn op_enc(case: &J) -> J {
    let ty = ty_of(&case["ty"]);
    let toks = toks_of(&case["toks"]);
    let pos = Cell::new(0);
    let mut w = SWriter::new(sched(&case["ws"]));
    let r = bin_prot::to_writer(&mut w, &Node { ty: &ty, toks: &toks, pos: &pos });
    match r {
        Ok(()) => json!({"ok": true, "err": "", "out": w.data, "hard": w.hard}),
        Err(e) => json!({"ok": false, "err": err_class(&e), "out": w.data, "hard": w.hard}),
    }
}

// ---------------------------------------------------------------- deserialization
pub struct Seed<'t> {
    pub ty: &'t Ty,
    pub out: &'t RefCell<Vec<Tok>>,
}
impl<'t> Clone for Seed<'t> {
    fn clone(&self) -> Self {
        Seed { ty: self.ty, out: self.out }
    }
}
impl<'t> Seed<'t> {
    fn push(&self, t: &str, b: Vec<u8>) {
        self.out.borrow_mut().push(tok(t, b))
    }
    fn at(&self, ty: &'t Ty) -> Seed<'t> {
        Seed { ty, out: self.out }
    }
    fn int<E: de::Error>(&self, x: i128) -> Result<(), E> {
        let (lo, hi): (i128, i128) = match self.ty.k.as_str() {
            "i8" => (i8::MIN as i128, i8::MAX as i128),
            "i16" => (i16::MIN as i128, i16::MAX as i128),
            "i32" => (i32::MIN as i128, i32::MAX as i128),
            "i64" => (i64::MIN as i128, i64::MAX as i128),
            "u8" => (0, 255),
            "u16" => (0, u16::MAX as i128),
            "u32" => (0, u32::MAX as i128),
            "u64" => (0, u64::MAX as i128),
            _ => return Err(E::custom("unexpected integer")),
        };
        if x < lo || x > hi {
            return Err(E::custom("integer out of range"));
        }
        if self.ty.k == "u8" {
            self.push("u8", vec![x as u8]);
        } else {
            self.push("int", (x as u64).to_le_bytes().to_vec());
        }
        Ok(())
    }
}
impl<'de, 't> DeserializeSeed<'de> for Seed<'t> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.ty.k.as_str() {
            "value" => {
                let v = bin_prot::Value::deserialize(d)?;
                crate::loose::flatten(&v, &mut self.out.borrow_mut());
                Ok(())
            }
            "unit" => d.deserialize_unit(self),
            "ustruct" => d.deserialize_unit_struct("U", self),
            "bool" => d.deserialize_bool(self),
            "char" => d.deserialize_char(self),
            "u8" => d.deserialize_u8(self),
            "i8" => d.deserialize_i8(self),
            "i16" => d.deserialize_i16(self),
            "i32" => d.deserialize_i32(self),
            "i64" => d.deserialize_i64(self),
            "u16" => d.deserialize_u16(self),
            "u32" => d.deserialize_u32(self),
            "u64" => d.deserialize_u64(self),
            "f32" => d.deserialize_f32(self),
            "f64" => d.deserialize_f64(self),
            "str" => d.deserialize_string(self),
            "opt" => d.deserialize_option(self),
            "newtype" => d.deserialize_newtype_struct("N", self),
            "seq" => d.deserialize_seq(self),
            "tuple" => {
                let n = self.ty.a.len();
                d.deserialize_tuple(n, self)
            }
            "tstruct" => {
                let n = self.ty.a.len();
                d.deserialize_tuple_struct("T", n, self)
            }
            "struct" => {
                let n = self.ty.names;
                d.deserialize_struct("S", n, self)
            }
            "enum" => {
                let n = self.ty.names;
                d.deserialize_enum("E", n, self)
            }
            "poly" => {
                let n = self.ty.names;
                d.deserialize_enum("Polyvar", n, self)
            }
            k => panic!("HARNESS kind {k}"),
        }
    }
}

struct Ident<'t>(&'t [&'static str]);
impl<'de, 't> DeserializeSeed<'de> for Ident<'t> {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de, 't> Visitor<'de> for Ident<'t> {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
        if (v as usize) < self.0.len() {
            Ok(v as usize)
        } else {
            Err(E::custom("invalid variant index"))
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> {
        self.0
            .iter()
            .position(|x| *x == v)
            .ok_or_else(|| E::custom("unknown identifier"))
    }
}

// expects exactly the elements of a tuple-like thing
struct Elems<'t> {
    tys: &'t [Ty],
    names: Option<&'static [&'static str]>,
    out: &'t RefCell<Vec<Tok>>,
}
impl<'de, 't> Visitor<'de> for Elems<'t> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("elements")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        for (i, ty) in self.tys.iter().enumerate() {
            a.next_element_seed(Seed { ty, out: self.out })?
                .ok_or_else(|| de::Error::invalid_length(i, &"more elements"))?;
        }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let names = self.names.unwrap_or(&[]);
        let mut parts: Vec<Option<Vec<Tok>>> = vec![None; self.tys.len()];
        while let Some(i) = a.next_key_seed(Ident(names))? {
            if parts[i].is_some() {
                return Err(de::Error::custom("duplicate field"));
            }
            let o = RefCell::new(vec![]);
            a.next_value_seed(Seed { ty: &self.tys[i], out: &o })?;
            parts[i] = Some(o.into_inner());
        }
        for p in parts {
            match p {
                Some(p) => self.out.borrow_mut().extend(p),
                None => return Err(de::Error::custom("missing field")),
            }
        }
        Ok(())
    }
}

impl<'de, 't> Visitor<'de> for Seed<'t> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.ty.k)
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<(), E> {
        if self.ty.k != "bool" {
            return Err(E::custom("unexpected bool"));
        }
        self.push("bool", vec![v as u8]);
        Ok(())
    }
    fn visit_i8<E: de::Error>(self, v: i8) -> Result<(), E> {
        self.int(v as i128)
    }
    fn visit_i16<E: de::Error>(self, v: i16) -> Result<(), E> {
        self.int(v as i128)
    }
    fn visit_i32<E: de::Error>(self, v: i32) -> Result<(), E> {
        self.int(v as i128)
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<(), E> {
        self.int(v as i128)
    }
    fn visit_u8<E: de::Error>(self, v: u8) -> Result<(), E> {
        self.int(v as i128)
    }
    fn visit_u16<E: de::Error>(self, v: u16) -> Result<(), E> {
        self.int(v as i128)
    }
    fn visit_u32<E: de::Error>(self, v: u32) -> Result<(), E> {
        self.int(v as i128)
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<(), E> {
        self.int(v as i128)
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<(), E> {
        match self.ty.k.as_str() {
            "f32" => self.push("f32", v.to_le_bytes().to_vec()),
            _ => return Err(E::custom("unexpected f32")),
        }
        Ok(())
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<(), E> {
        match self.ty.k.as_str() {
            "f64" => self.push("f64", v.to_le_bytes().to_vec()),
            _ => return Err(E::custom("unexpected f64")),
        }
        Ok(())
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<(), E> {
        if self.ty.k != "char" {
            return Err(E::custom("unexpected char"));
        }
        self.push("char", char_bytes(v));
        Ok(())
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        if self.ty.k != "str" {
            return Err(E::custom("unexpected str"));
        }
        self.push("str", v.as_bytes().to_vec());
        Ok(())
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<(), E> {
        match std::str::from_utf8(v) {
            Ok(s) => self.visit_str(s),
            Err(_) => Err(E::custom("not utf8")),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        match self.ty.k.as_str() {
            "unit" | "ustruct" => self.push("unit", vec![]),
            _ => return Err(E::custom("unexpected unit")),
        }
        Ok(())
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        if self.ty.k != "opt" {
            return Err(E::custom("unexpected none"));
        }
        self.push("none", vec![]);
        Ok(())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        if self.ty.k != "opt" {
            return Err(de::Error::custom("unexpected some"));
        }
        self.push("some", vec![]);
        self.at(&self.ty.a[0]).deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.at(&self.ty.a[0]).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        match self.ty.k.as_str() {
            "seq" => {
                let at = self.out.borrow().len();
                self.push("seq", vec![]);
                let mut n: u64 = 0;
                while a.next_element_seed(self.at(&self.ty.a[0]))?.is_some() {
                    n += 1;
                }
                self.out.borrow_mut()[at].b = n.to_le_bytes().to_vec();
                Ok(())
            }
            "tuple" | "tstruct" | "struct" => Elems {
                tys: &self.ty.a,
                names: None,
                out: self.out,
            }
            .visit_seq(a),
            // derived newtype structs also accept a one element sequence
            "newtype" => Elems { tys: &self.ty.a, names: None, out: self.out }.visit_seq(a),
            _ => Err(de::Error::custom("unexpected seq")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        if self.ty.k != "struct" {
            return Err(de::Error::custom("unexpected map"));
        }
        Elems {
            tys: &self.ty.a,
            names: Some(self.ty.names),
            out: self.out,
        }
        .visit_map(a)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let poly = match self.ty.k.as_str() {
            "enum" => false,
            "poly" => true,
            _ => return Err(de::Error::custom("unexpected enum")),
        };
        let (i, va) = a.variant_seed(Ident(self.ty.names))?;
        let v = &self.ty.v[i];
        if poly {
            self.push("poly", v.n.as_bytes().to_vec());
        } else {
            self.push("var", vec![i as u8]);
        }
        match v.s.as_str() {
            "unit" => va.unit_variant(),
            "newtype" => va.newtype_variant_seed(self.at(&v.a[0])),
            "tuple" => va.tuple_variant(
                v.a.len(),
                Elems { tys: &v.a, names: None, out: self.out },
            ),
            "struct" => {
                let names: Vec<&'static str> =
                    (0..v.a.len()).map(|i| intern(&format!("f{i}"))).collect();
                let names: &'static [&'static str] = Box::leak(names.into_boxed_slice());
                va.struct_variant(
                    names,
                    Elems { tys: &v.a, names: Some(names), out: self.out },
                )
            }
            _ => panic!("HARNESS shape"),
        }
    }
}
pub fn char_bytes(v: char) -> Vec<u8> {
    let mut c = v as u32;
    let mut r = vec![(c & 255) as u8];
    c >>= 8;
    while c != 0 {
        r.push((c & 255) as u8);
        c >>= 8;
    }
    r
}

/// A `Deserialize` whose shape is taken from a thread local, so that the crate's own entry
/// points (`from_reader`, `from_reader_strict`) can be driven.
pub struct Any(pub Vec<Tok>);
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        let ty = CUR.with(|c| c.borrow().clone());
        let out = RefCell::new(vec![]);
        Seed { ty: &ty, out: &out }.deserialize(d)?;
        Ok(Any(out.into_inner()))
    }
}
pub fn set_cur(ty: &Ty) {
    CUR.with(|c| *c.borrow_mut() = ty.clone());
}

pub fn op_dec(case: &J) -> J {
    let ty = ty_of(&case["ty"]);
    let bytes = bytes_of(&case["in"]);
    let rs = sched(&case["rs"]);
    set_cur(&ty);
    let mut rdr = SReader::new(&bytes, rs.clone());
    let (r, left) = {
        let mut de = bin_prot::Deserializer::from_reader(&mut rdr);
        let r = Any::deserialize(&mut de);
        (r, de.rdr.buffer().len())
    };
    let n = rdr.pos - left;
    let got = bytes[..rdr.pos].to_vec();
    let mut res = match &r {
        Ok(a) => json!({"ok": true, "err": "", "toks": toks_json(&a.0), "n": n}),
        Err(e) => {
            json!({"ok": false, "err": err_class(e), "toks": [], "n": 0, "detail": format!("{e:?}")})
        }
    };
    // what the reader was given: everything, or (failing readers) what was delivered
    res["faulted"] = json!(rs.contains(&-2));
    res["got"] = json!(if rs.contains(&-2) { got } else { bytes.clone() });
    // convenience entry points must agree with the Deserializer
    let fr: Result<Any, Error> = bin_prot::from_reader(SReader::new(&bytes, rs.clone()));
    res["fr"] = json!(match (&r, &fr) {
        (Ok(a), Ok(b)) => a.0 == b.0,
        (Err(a), Err(b)) => err_class(a) == err_class(b),
        _ => false,
    });
    let st: Result<Any, Error> = bin_prot::from_reader_strict(SReader::new(&bytes, rs));
    res["strict"] = json!(match &st {
        Ok(b) => match &r {
            Ok(a) if a.0 == b.0 => "ok".to_string(),
            _ => "DIFFERENT".to_string(),
        },
        Err(e) => err_class(e),
    });
    res
}

/// several values through one Serializer
pub fn op_encseq(case: &J) -> J {
    let mut w = SWriter::new(sched(&case["ws"]));
    {
        let mut s = bin_prot::Serializer::new(&mut w);
        for (t, v) in case["tys"].as_array().unwrap().iter().zip(case["vals"].as_array().unwrap()) {
            let ty = ty_of(t);
            let toks = toks_of(v);
            let pos = Cell::new(0);
            if let Err(e) = (Node { ty: &ty, toks: &toks, pos: &pos }).serialize(&mut s) {
                return json!({"ok": false, "err": err_class(&e), "out": w.data, "hard": w.hard});
            }
        }
    }
    json!({"ok": true, "err": "", "out": w.data, "hard": w.hard})
}

/// several values through one Deserializer
pub fn op_decseq(case: &J) -> J {
    let bytes = bytes_of(&case["in"]);
    let mut rdr = SReader::new(&bytes, sched(&case["rs"]));
    let mut all = vec![];
    let left = {
        let mut de = bin_prot::Deserializer::from_reader(&mut rdr);
        for t in case["tys"].as_array().unwrap() {
            set_cur(&ty_of(t));
            match Any::deserialize(&mut de) {
                Ok(a) => all.extend(a.0),
                Err(e) => return json!({"ok": false, "err": err_class(&e), "toks": [], "n": 0}),
            }
        }
        de.rdr.buffer().len()
    };
    json!({"ok": true, "err": "", "toks": toks_json(&all), "n": rdr.pos - left})
}

use crate::io::*;
use crate::{bytes_of, err_class};
use bin_prot::{ReadBinProtExt, WriteBinProtExt};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64)
}

pub fn op_read(case: &J) -> J {
    let bytes = bytes_of(&case["in"]);
    let mut r = SReader::new(&bytes, sched(&case["rs"]));
    macro_rules! int {
        ($t:ty) => {
            r.bin_read_integer::<$t>().map(|x| (x as i64).to_le_bytes().to_vec())
        };
    }
    macro_rules! nat {
        ($t:ty) => {
            r.bin_read_nat0::<$t>().map(|x| (x as u64).to_le_bytes().to_vec())
        };
    }
    let res = match case["f"].as_str().unwrap() {
        "unit" => r.bin_read_unit().map(|_| vec![]),
        "bool" => r.bin_read_bool().map(|b| vec![b as u8]),
        "char" => r.bin_read_char().map(crate::dynty::char_bytes),
        "integer:i8" => int!(i8),
        "integer:i16" => int!(i16),
        "integer:i32" => int!(i32),
        "integer:i64" => int!(i64),
        "integer:u8" => int!(u8),
        "integer:u16" => int!(u16),
        "integer:u32" => int!(u32),
        "integer:u64" => int!(u64),
        "nat0:u8" => nat!(u8),
        "nat0:u16" => nat!(u16),
        "nat0:u32" => nat!(u32),
        "nat0:u64" => nat!(u64),
        "variant" => r.bin_read_variant_index().map(|b| vec![b]),
        "tag" => r.bin_read_polyvar_tag().map(|t| t.to_le_bytes().to_vec()),
        "string" => r.bin_read_string().map(|s| s.into_bytes()),
        "bytes" => r.bin_read_bytes(),
        f => panic!("HARNESS read {f}"),
    };
    match res {
        Ok(v) => json!({"ok": true, "err": "", "val": v, "n": r.pos}),
        Err(e) => json!({"ok": false, "err": err_class(&e), "val": [], "n": 0}),
    }
}

pub fn op_write(case: &J) -> J {
    let x = bytes_of(&case["x"]);
    let mut w = SWriter::new(sched(&case["ws"]));
    let u = le(&x);
    let res: Result<usize, std::io::Error> = match case["f"].as_str().unwrap() {
        "unit" => w.bin_write_unit().map(|_| 1),
        "bool" => w.bin_write_bool(x[0] == 1).map(|_| 1),
        "char" => w.bin_write_char(char::from_u32(u as u32).expect("HARNESS char")),
        "integer:i8" => w.bin_write_integer(u as i8),
        "integer:i16" => w.bin_write_integer(u as i16),
        "integer:i32" => w.bin_write_integer(u as i32),
        "integer:i64" => w.bin_write_integer(u as i64),
        "integer:u8" => w.bin_write_integer(u as u8),
        "integer:u16" => w.bin_write_integer(u as u16),
        "integer:u32" => w.bin_write_integer(u as u32),
        "nat0:u8" => w.bin_write_nat0(u as u8),
        "nat0:u16" => w.bin_write_nat0(u as u16),
        "nat0:u32" => w.bin_write_nat0(u as u32),
        "nat0:u64" => w.bin_write_nat0(u),
        "f32" => w.bin_write_float32(&f32::from_bits(u as u32)),
        "f64" => w.bin_write_float64(&f64::from_bits(u)),
        "variant" => w.bin_write_variant_index(x[0]),
        "tag" => w.bin_write_polyvar_tag(u as u32),
        f => panic!("HARNESS write {f}"),
    };
    match res {
        Ok(n) => json!({"ok": true, "err": "", "out": w.data, "ret": n, "hard": w.hard}),
        Err(_) => json!({"ok": false, "err": "Io", "out": w.data, "ret": 0, "hard": w.hard}),
    }
}

pub fn op_hash(case: &J) -> J {
    let label = match &case["label"] {
        J::String(s) => s.clone(),
        b => String::from_utf8(bytes_of(b)).expect("HARNESS label"),
    };
    json!({"ok": true, "err": "", "hash": bin_prot::caml_hash_variant(&label).to_le_bytes().to_vec()})
}

// the `#[serde(with = "integer")]` / `#[serde(with = "nat0")]` field adapters
#[derive(Serialize, Deserialize)]
struct WI(#[serde(with = "bin_prot::integers::integer")] i64, bool);
#[derive(Serialize, Deserialize)]
struct WN(#[serde(with = "bin_prot::integers::nat0")] u64, bool);

pub fn op_with(case: &J) -> J {
    let x = le(&bytes_of(&case["x"]));
    let mut out = vec![];
    let r = match case["f"].as_str().unwrap() {
        "integer" => bin_prot::to_writer(&mut out, &WI(x as i64, true)),
        "nat0" => bin_prot::to_writer(&mut out, &WN(x, true)),
        f => panic!("HARNESS with {f}"),
    };
    if let Err(e) = r {
        return json!({"ok": false, "err": err_class(&e), "out": out, "back": "n/a"});
    }
    let back = match case["f"].as_str().unwrap() {
        "integer" => bin_prot::from_reader_strict::<_, WI>(&out[..]).map(|w| w.0 as u64 == x && w.1),
        _ => bin_prot::from_reader_strict::<_, WN>(&out[..]).map(|w| w.0 == x && w.1),
    };
    json!({"ok": true, "err": "", "out": out,
           "back": match back { Ok(true) => "same".to_string(), Ok(false) => "DIFFERENT".to_string(), Err(e) => err_class(&e) }})
}

// probes of known findings
pub fn op_charenc(case: &J) -> J {
    let c = char::from_u32(case["c"].as_u64().unwrap() as u32).expect("HARNESS char");
    let mut out = vec![];
    match bin_prot::to_writer(&mut out, &c) {
        Ok(()) => json!({"ok": true, "err": "", "out": out}),
        Err(e) => json!({"ok": false, "err": err_class(&e), "out": out}),
    }
}
pub fn op_mapdec(case: &J) -> J {
    let b = bytes_of(&case["in"]);
    match bin_prot::from_reader_strict::<_, std::collections::BTreeMap<String, u8>>(&b[..]) {
        Ok(m) => json!({"ok": true, "err": "", "n": m.len()}),
        Err(e) => json!({"ok": false, "err": err_class(&e)}),
    }
}
pub fn op_mapenc(_: &J) -> J {
    let m: std::collections::BTreeMap<String, u8> = [("a".to_string(), 1)].into_iter().collect();
    let mut out = vec![];
    match bin_prot::to_writer(&mut out, &m) {
        Ok(()) => json!({"ok": true, "err": "", "out": out}),
        Err(e) => json!({"ok": false, "err": err_class(&e), "out": out}),
    }
}

/// A payload of n elements given by a formula, so that sizes no case file can carry are exercised too.
pub fn op_big(case: &J) -> J {
    use bin_prot::value::layout::BinProtRule;
    use serde::Deserialize;
    fn round<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(v: &T, tail: &[u8], limit: usize) -> J {
        let mut out = vec![];
        if let Err(e) = bin_prot::to_writer(&mut out, v) {
            return json!({"ok": false, "err": err_class(&e)});
        }
        let head = out.len().saturating_sub(tail.len());
        if out[head..] != *tail {
            return json!({"ok": false, "err": "TAIL", "head": out[..16.min(out.len())].to_vec(), "len": out.len()});
        }
        let a: Result<T, _> = bin_prot::from_reader_strict(&out[..]);
        let mut more = out.clone();
        more.push(1);
        let b: Result<T, _> = bin_prot::from_reader(&more[..]);
        let c: Result<T, _> = bin_prot::from_reader_strict(&more[..]);
        let d: Result<T, _> = bin_prot::from_reader(&out[..out.len() - 1]);
        let mut chunks = crate::io::SReader::new(&out, vec![limit as i64]);
        let f: Result<T, _> = bin_prot::from_reader(&mut chunks);
        json!({"ok": true, "err": "", "head": out[..head].to_vec(),
               "strict": matches!(&a, Ok(x) if x == v), "lax": matches!(&b, Ok(x) if x == v), "chunked": matches!(&f, Ok(x) if x == v),
               "trailing": c.is_ok(), "cut": d.is_ok()})
    }
    let n = case["n"].as_u64().unwrap() as usize;
    let chars: Vec<u8> = (0..n).map(|i| 97 + (i % 23) as u8).collect();
    match case["f"].as_str().unwrap() {
        "str" => round(&String::from_utf8(chars.clone()).unwrap(), &chars, 65521),
        "seq" => round(&chars, &chars, 8191),
        "bools" => {
            let v: Vec<bool> = (0..n).map(|i| i % 3 == 0).collect();
            let tail: Vec<u8> = v.iter().map(|b| *b as u8).collect();
            round(&v, &tail, 40000)
        }
        "options" => {
            let v: Vec<Option<u8>> = (0..n).map(|i| if i % 3 == 0 { None } else { Some((i % 251) as u8) }).collect();
            let tail: Vec<u8> = (0..n).flat_map(|i| if i % 3 == 0 { vec![0] } else { vec![1, (i % 251) as u8] }).collect();
            round(&v, &tail, 8192)
        }
        f => {
            let rule = match f {
                "lstr" => BinProtRule::String,
                "llist" => BinProtRule::List(Box::new(BinProtRule::Char)),
                _ => panic!("HARNESS {f}"),
            };
            let mut out = bytes_of(&case["head"]);
            out.extend_from_slice(&chars);
            let mut more = out.clone();
            more.push(1);
            let got = |b: &[u8]| -> Result<bin_prot::Value, _> {
                let mut de = bin_prot::Deserializer::from_reader(b).with_layout(&rule);
                bin_prot::Value::deserialize(&mut de)
            };
            let same = |r: &Result<bin_prot::Value, bin_prot::error::Error>| match r {
                Ok(bin_prot::Value::List(l)) => {
                    l.len() == n && l.iter().zip(&chars).all(|(x, c)| *x == bin_prot::Value::Char(*c)) && {
                        let mut o = vec![];
                        bin_prot::to_writer(&mut o, r.as_ref().unwrap()).is_ok() && o == out
                    }
                }
                _ => false,
            };
            json!({"ok": true, "err": "", "head": case["head"], "strict": same(&got(&out)), "lax": same(&got(&more)), "chunked": true,
                   "trailing": false, "cut": got(&out[..out.len() - 1]).is_ok()})
        }
    }
}

//! Executes conformance cases against the real `versioned` crate (and bin-prot for the wire).
#[path = "../../common/driver.rs"]
mod driver;
#[path = "../../bp/src/dynty.rs"]
#[allow(dead_code)]
mod dynty;
#[path = "../../bp/src/io.rs"]
#[allow(dead_code)]
mod io;
mod walk;
mod loose {
    pub fn flatten(_: &bin_prot::Value, _: &mut Vec<crate::dynty::Tok>) {}
}
pub use driver::bytes_of;
use dynty::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use versioned::Versioned;

pub fn err_class(e: &bin_prot::error::Error) -> String {
    let d = format!("{:?}", e);
    let end = d.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(d.len());
    d[..end].to_string()
}

thread_local! { static TY: RefCell<Ty> = RefCell::new(Ty::default()); }
/// payload of a run-time described type
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Pay(Vec<Tok>);
impl<'de> Deserialize<'de> for Pay {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Pay, D::Error> {
        Any::deserialize(d).map(|a| Pay(a.0))
    }
}
impl Serialize for Pay {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let ty = TY.with(|t| t.borrow().clone());
        Node { ty: &ty, toks: &self.0, pos: &Cell::new(0) }.serialize(s)
    }
}

pub trait Layers: Serialize + for<'d> Deserialize<'d> + PartialEq + Clone {
    fn layers(&self, vs: &mut Vec<u16>) -> Pay;
}
impl Layers for Pay {
    fn layers(&self, _: &mut Vec<u16>) -> Pay {
        self.clone()
    }
}
impl<T: Layers, const V: u16> Layers for Versioned<T, V> {
    fn layers(&self, vs: &mut Vec<u16>) -> Pay {
        vs.push(self.version());
        assert_eq!(self.version, self.version(), "HARNESS field and accessor");
        self.clone().inner().layers(vs)
    }
}

fn describe<T: Layers>(x: &T) -> J {
    let mut vs = vec![];
    let p = x.layers(&mut vs);
    let mut out = vec![];
    let enc = bin_prot::to_writer(&mut out, x);
    json!({"vers": vs, "toks": toks_json(&p.0), "out": out, "encok": enc.is_ok()})
}

fn run_one<T: Layers + From<Pay>>(case: &J) -> J
where
    (Pay,): From<T>,
{
    match case["op"].as_str().unwrap() {
        "make" => {
            let x: T = Pay(toks_of(&case["toks"])).into();
            let mut r = describe(&x);
            let (back,): (Pay,) = x.into();
            r["back"] = toks_json(&back.0);
            r["ok"] = json!(true);
            r["err"] = json!("");
            r
        }
        _ => {
            let b = bytes_of(&case["in"]);
            let mut rdr = &b[..];
            let mut de = bin_prot::Deserializer::from_reader(&mut rdr);
            let r = T::deserialize(&mut de);
            let left = de.rdr.buffer().len();
            drop(de);
            match r {
                Ok(x) => {
                    let mut j = describe(&x);
                    j["n"] = json!(b.len() - rdr.len() - left);
                    j["ok"] = json!(true);
                    j["err"] = json!("");
                    j
                }
                Err(e) => json!({"ok": false, "err": err_class(&e), "toks": [], "n": 0, "vers": [], "out": []}),
            }
        }
    }
}

macro_rules! stacks {
    ($case:expr, $key:expr; $($a:literal),*; $($b1:literal $b2:literal),*; $($c1:literal $c2:literal $c3:literal),*; $($d1:literal $d2:literal $d3:literal $d4:literal),*) => {
        match $key {
            $([$a] => run_one::<Versioned<Pay, $a>>($case),)*
            $([$b1, $b2] => run_one::<Versioned<Versioned<Pay, $b2>, $b1>>($case),)*
            $([$c1, $c2, $c3] => run_one::<Versioned<Versioned<Versioned<Pay, $c3>, $c2>, $c1>>($case),)*
            $([$d1, $d2, $d3, $d4] => run_one::<Versioned<Versioned<Versioned<Versioned<Pay, $d4>, $d3>, $d2>, $d1>>($case),)*
            k => panic!("HARNESS no stack {k:?}"),
        }
    };
}

fn run(case: &J) -> J {
    if case["op"] == "walk" {
        return walk::run(case);
    }
    let ty = ty_of(&case["ty"]);
    set_cur(&ty);
    TY.with(|t| *t.borrow_mut() = ty);
    let key: Vec<u64> = case["stack"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    stacks!(case, &key[..]; 0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535;
            1 2, 2 1, 65535 0, 3 128; 1 2 3, 40000 5 300; 1 2 3 4, 9 8 7 65535)
}

fn main() {
    driver::drive(run);
}

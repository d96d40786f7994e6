use crate::dynty::{ntok, set_cur, tok, toks_json, toks_of, ty_of, Any, Tok};
use crate::io::*;
use crate::{bytes_of, err_class};
use bin_prot::value::Index;
use bin_prot::{BinProtRule, Layout, Value};
use serde::Deserialize;
use serde_json::{json, Value as J};

pub fn flatten(v: &Value, out: &mut Vec<Tok>) {
    match v {
        Value::Unit => out.push(tok("unit", vec![])),
        Value::Nat0(n) => out.push(tok("nat0", (*n as u64).to_le_bytes().to_vec())),
        Value::Bool(b) => out.push(tok("bool", vec![*b as u8])),
        Value::String(b) => out.push(tok("string", b.clone())),
        Value::Char(c) => out.push(tok("char", vec![*c])),
        Value::Int(i) => out.push(tok("int", i.to_le_bytes().to_vec())),
        Value::Float(f) => out.push(tok("f64", f.to_le_bytes().to_vec())),
        Value::Option(None) => out.push(tok("none", vec![])),
        Value::Option(Some(b)) => {
            out.push(tok("some", vec![]));
            flatten(b, out)
        }
        Value::Record(fs) => {
            out.push(tok("rec", vec![fs.len() as u8]));
            for (n, v) in fs {
                out.push(ntok("field", vec![], n));
                flatten(v, out);
            }
        }
        Value::Tuple(vs) => {
            out.push(tok("tup", vec![vs.len() as u8]));
            vs.iter().for_each(|v| flatten(v, out));
        }
        Value::List(vs) => {
            out.push(tok("list", (vs.len() as u64).to_le_bytes().to_vec()));
            vs.iter().for_each(|v| flatten(v, out));
        }
        Value::Sum { name, index, value } => {
            out.push(ntok("sum", vec![*index], name));
            flatten(value, out)
        }
        Value::Polyvar { name, tag, value } => {
            out.push(ntok("pv", tag.to_le_bytes().to_vec(), name));
            flatten(value, out)
        }
    }
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64)
}
pub fn build(t: &[Tok], p: &mut usize) -> Value {
    let k = t.get(*p).expect("HARNESS short value").clone();
    *p += 1;
    match k.t.as_str() {
        "unit" => Value::Unit,
        "nat0" => Value::Nat0(le(&k.b) as u32),
        "bool" => Value::Bool(k.b[0] == 1),
        "string" => Value::String(k.b),
        "char" => Value::Char(k.b[0]),
        "int" => Value::Int(le(&k.b) as i64),
        "f64" => Value::Float(f64::from_bits(le(&k.b))),
        "none" => Value::Option(None),
        "some" => Value::Option(Some(Box::new(build(t, p)))),
        "rec" => Value::Record(
            (0..k.b[0])
                .map(|_| {
                    let n = t[*p].s.clone();
                    *p += 1;
                    (n, build(t, p))
                })
                .collect(),
        ),
        "tup" => Value::Tuple((0..k.b[0]).map(|_| build(t, p)).collect()),
        "list" => Value::List((0..le(&k.b)).map(|_| build(t, p)).collect()),
        "sum" => Value::Sum {
            index: k.b[0],
            name: k.s,
            value: Box::new(build(t, p)),
        },
        "pv" => Value::Polyvar {
            tag: le(&k.b[..4]) as u32,
            name: k.s,
            value: Box::new(build(t, p)),
        },
        x => panic!("HARNESS value token {x}"),
    }
}

fn rule_of(j: &J) -> Result<BinProtRule, String> {
    let s = j.to_string();
    let mut de = serde_json::Deserializer::from_str(&s);
    de.disable_recursion_limit();
    let de = serde_stacker::Deserializer::new(&mut de);
    BinProtRule::deserialize(de).map_err(|e| e.to_string())
}

fn reenc(v: &Value) -> J {
    let mut o = vec![];
    match bin_prot::to_writer(&mut o, v) {
        Ok(()) => json!({"ok": true, "out": o}),
        Err(e) => json!({"ok": false, "out": o, "err": err_class(&e)}),
    }
}

thread_local! {
    static LAYOUTS: std::cell::RefCell<std::collections::HashMap<String, BinProtRule>> = Default::default();
}
fn layout_file(path: &str) -> Result<BinProtRule, String> {
    if let Some(r) = LAYOUTS.with(|l| l.borrow().get(path).cloned()) {
        return Ok(r);
    }
    let text = std::fs::read_to_string(path).expect("HARNESS layout");
    let mut de = serde_json::Deserializer::from_str(&text);
    de.disable_recursion_limit();
    let de = serde_stacker::Deserializer::new(&mut de);
    let r = Layout::deserialize(de).map_err(|e| e.to_string())?.bin_prot_rule;
    LAYOUTS.with(|l| l.borrow_mut().insert(path.to_string(), r.clone()));
    Ok(r)
}

pub fn op_loose(case: &J) -> J {
    let rule = if case["layout"].is_string() {
        match layout_file(case["layout"].as_str().unwrap()) {
            Ok(r) => r,
            Err(m) => return json!({"ok": false, "err": "LAYOUT", "msg": m, "toks": [], "n": 0, "re": []}),
        }
    } else {
        match rule_of(&case["rule"]) {
            Ok(r) => r,
            Err(m) => return json!({"ok": false, "err": "LAYOUT", "msg": m, "toks": [], "n": 0, "re": []}),
        }
    };
    let bytes = bytes_of(&case["in"]);
    let mut rdr = SReader::new(&bytes, sched(&case["rs"]));
    let (r, left) = {
        let mut de = bin_prot::Deserializer::from_reader(&mut rdr).with_layout(&rule);
        let r = Value::deserialize(&mut de);
        let l = de.rdr.buffer().len();
        (r, l)
    };
    let n = rdr.pos - left;
    match r {
        Ok(v) => {
            let mut t = vec![];
            flatten(&v, &mut t);
            let re = reenc(&v);
            if case["quiet"].as_bool() == Some(true) {
                return json!({"ok": true, "err": "", "ntoks": t.len(), "n": n, "same": re["out"] == json!(bytes[..n].to_vec())});
            }
            json!({"ok": true, "err": "", "toks": toks_json(&t), "n": n, "re": re["out"], "reok": re["ok"]})
        }
        Err(e) => {
            json!({"ok": false, "err": err_class(&e), "toks": [], "n": 0, "re": [], "detail": format!("{e:?}")})
        }
    }
}

pub fn op_hybrid(case: &J) -> J {
    let rule = match rule_of(&case["rule"]) {
        Ok(r) => r,
        Err(m) => return json!({"ok": false, "err": "LAYOUT", "msg": m, "toks": [], "n": 0}),
    };
    let ty = ty_of(&case["ty"]);
    set_cur(&ty);
    let bytes = bytes_of(&case["in"]);
    let mut rdr = SReader::new(&bytes, sched(&case["rs"]));
    let (r, left) = {
        let mut de = bin_prot::Deserializer::from_reader(&mut rdr).with_layout(&rule);
        let r = Any::deserialize(&mut de);
        let l = de.rdr.buffer().len();
        (r, l)
    };
    let n = rdr.pos - left;
    match r {
        Ok(a) => json!({"ok": true, "err": "", "toks": toks_json(&a.0), "n": n}),
        Err(e) => {
            json!({"ok": false, "err": err_class(&e), "toks": [], "n": 0, "detail": format!("{e:?}")})
        }
    }
}

/// does a JSON text parse as a rule (or a whole layout file), and into what?
pub fn op_layout(case: &J) -> J {
    let text = case["text"].as_str().expect("HARNESS text");
    let r = if case["kind"] == "layout" {
        let mut de = serde_json::Deserializer::from_str(text);
        de.disable_recursion_limit();
        let de = serde_stacker::Deserializer::new(&mut de);
        Layout::deserialize(de).map(|l| serde_json::to_value(&l).unwrap())
    } else {
        serde_json::from_str::<BinProtRule>(text).map(|r| serde_json::to_value(&r).unwrap())
    };
    match r {
        Ok(j) => json!({"ok": true, "err": "", "image": j.to_string()}),
        Err(m) => json!({"ok": false, "err": "LAYOUT", "msg": m.to_string()}),
    }
}

/// serialize a Value given as tokens
pub fn op_venc(case: &J) -> J {
    let t = toks_of(&case["toks"]);
    let mut p = 0;
    let v = build(&t, &mut p);
    let mut w = SWriter::new(sched(&case["ws"]));
    match bin_prot::to_writer(&mut w, &v) {
        Ok(()) => json!({"ok": true, "err": "", "out": w.data, "hard": w.hard}),
        Err(e) => json!({"ok": false, "err": err_class(&e), "out": w.data, "hard": w.hard}),
    }
}

/// index a Value by a path of steps (number or string)
pub fn op_vindex(case: &J) -> J {
    let t = toks_of(&case["toks"]);
    let mut p = 0;
    let v = build(&t, &mut p);
    // non panicking interface
    let mut cur: Option<Value> = Some(v.clone());
    for s in case["path"].as_array().unwrap() {
        cur = match cur {
            None => None,
            Some(c) => match s {
                J::Number(n) => {
                    let i = n.as_u64().unwrap() as usize;
                    let a = i.index_into(&c).cloned();
                    let b = (&i).index_into(&c).cloned();
                    if a != b {
                        return json!({"ok": false, "err": "REFDIFF", "toks": []});
                    }
                    a
                }
                J::String(s) => {
                    let a = s.as_str().index_into(&c).cloned();
                    let b = s.index_into(&c).cloned();
                    if a != b {
                        return json!({"ok": false, "err": "REFDIFF", "toks": []});
                    }
                    a
                }
                J::Null => c.inner(),
                _ => panic!("HARNESS step"),
            },
        };
    }
    // panicking interface
    if case["path"].as_array().unwrap().iter().any(|s| s.is_null()) {
        return match cur {
            Some(c) => {
                let mut t = vec![];
                flatten(&c, &mut t);
                json!({"ok": true, "err": "", "toks": toks_json(&t), "same": true})
            }
            None => json!({"ok": false, "err": "NONE", "toks": [], "same": true}),
        };
    }
    let v2 = v.clone();
    let path = case["path"].as_array().unwrap().clone();
    let idx = std::panic::catch_unwind(move || {
        let mut c = &v2;
        for s in &path {
            c = match s {
                J::Number(n) => &c[n.as_u64().unwrap() as usize],
                J::String(s) => &c[s.as_str()],
                _ => unreachable!(),
            };
        }
        c.clone()
    })
    .ok();
    let same = idx == cur;
    match cur {
        Some(c) => {
            let mut t = vec![];
            flatten(&c, &mut t);
            json!({"ok": true, "err": "", "toks": toks_json(&t), "same": same})
        }
        None => json!({"ok": false, "err": "NONE", "toks": [], "same": same}),
    }
}

//! A block moved along a path of representations (spec/Block.tla).
use mina_rs_base::external_transition::ExternalTransition;
use mina_serialization_types::json::ExternalTransitionJson;
use mina_serialization_types::v1::ExternalTransitionV1;
use mina_serialization_types::{BinProtSerializationType, JsonSerializationType};
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
enum Rep {
    Wire(Vec<u8>),
    Typed(Box<ExternalTransitionV1>),
    Block(Box<ExternalTransition>),
    Json(String),
}
use Rep::*;

fn s<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
fn typed(b: &[u8]) -> Result<Rep, String> {
    Ok(Typed(Box::new(s(bin_prot::from_reader_strict(b))?)))
}
fn wire(t: &ExternalTransitionV1) -> Result<Rep, String> {
    let mut o = Vec::new();
    s(bin_prot::to_writer(&mut o, t))?;
    Ok(Wire(o))
}
fn hop(r: &Rep, to: &str) -> Result<Rep, String> {
    Ok(match (r, to) {
        (Wire(b), "typed") => typed(b)?,
        (Wire(b), "block") => Block(Box::new(s(ExternalTransition::try_from_binprot(
            b.as_slice(),
        ))?)),
        (Typed(t), "wire") => wire(t)?,
        (Typed(t), "block") => Block(Box::new((**t).clone().into())),
        (Typed(t), "json") => {
            let j: ExternalTransitionJson = (**t).clone().into();
            Json(s(serde_json::to_string(&j))?)
        }
        (Block(b), "typed") => Typed(Box::new((**b).clone().into())),
        (Block(b), "wire") => Wire(s((**b).clone().try_into_binprot())?),
        (Block(b), "json") => Json(s((**b).clone().try_into_json().map(|x| x.to_string()))?),
        (Json(t), "typed") => {
            let j: ExternalTransitionJson = s(serde_json::from_str(t))?;
            Typed(Box::new(j.into()))
        }
        (Json(t), "block") => Block(Box::new(s(ExternalTransition::try_from_json(t))?)),
        _ => panic!("HARNESS no hop to {to}"),
    })
}
pub fn document(c: &J) -> J {
    let first = match (
        c["in"].as_str().map(|f| std::fs::read(f).unwrap()),
        c["doc"].as_str(),
        c["json"].as_str(),
    ) {
        (None, None, t) => Json(t.unwrap().to_string()),
        (b, d, _) => {
            // a document, with some byte ranges replaced
            let mut b = b.unwrap_or_else(|| hex::decode(d.unwrap()).unwrap());
            for p in c["patch"].as_array().unwrap() {
                let at = |i: usize| p[i].as_u64().unwrap() as usize;
                b.splice(at(0)..at(1), hex::decode(p[2].as_str().unwrap()).unwrap());
            }
            if c["text"] == json!(true) {
                Json(String::from_utf8(b).unwrap())
            } else {
                Wire(b)
            }
        }
    };
    let show = c["show"].as_bool().unwrap_or(false);
    let runs: Vec<J> = c["paths"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| walk(&first, p, show))
        .collect();
    json!({"ok": true, "runs": runs})
}
fn walk(first: &Rep, path: &J, show: bool) -> J {
    let mut r = first.clone();
    let mut out = vec![];
    let mut form: Option<J> = None;
    for to in path.as_array().unwrap() {
        let to = to.as_str().unwrap();
        match catch_unwind(AssertUnwindSafe(|| hop(&r, to))) {
            Err(_) => {
                out.push(json!({"st": "PANIC"}));
                break;
            }
            Ok(Err(e)) => {
                out.push(json!({"st": "refused", "why": e}));
                break;
            }
            Ok(Ok(x)) => {
                r = x;
                out.push(match (&r, first) {
                    (Wire(b), Wire(a)) if a == b => json!({"st": "ok", "same": true}),
                    (Wire(b), _) => json!({"st": "ok", "same": false, "wire": hex::encode(b)}),
                    (Json(t), _) => {
                        let j = serde_json::from_str::<J>(t).unwrap();
                        let mut h = json!({"st": "ok"});
                        if let Json(a) = first {
                            h["same"] =
                                json!(serde_json::from_str::<J>(a).ok().as_ref() == Some(&j));
                        }
                        // the same as the last form in json on the way
                        if let Some(f) = &form {
                            h["again"] = json!(f == &j);
                        }
                        if show {
                            h["json"] = j.clone();
                        }
                        form = Some(j);
                        h
                    }
                    _ => json!({"st": "ok"}),
                });
            }
        }
    }
    json!(out)
}

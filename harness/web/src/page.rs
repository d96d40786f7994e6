//! What a page asks its node to do: the exports of the two pages, with the node's answers scripted.
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use wasm_bindgen::{JsError, JsValue};

pub fn js(v: &J) -> JsValue {
    match v {
        J::Null => JsValue::Null,
        J::Bool(b) => JsValue::Bool(*b),
        J::String(s) => JsValue::Str(s.clone()),
        J::Array(a) => JsValue::Array(a.iter().map(js).collect()),
        J::Object(o) => match (o.get("n"), o.get("big")) {
            (Some(n), _) => JsValue::Number(n.as_str().unwrap().parse().unwrap()),
            (_, Some(b)) => JsValue::BigInt(b.as_str().unwrap().into()),
            _ => JsValue::Undefined,
        },
        _ => panic!("HARNESS value {v}"),
    }
}
pub fn object(f: &J) -> JsValue {
    let m: BTreeMap<String, JsValue> = f.as_object().unwrap().iter().map(|(k, v)| (k.clone(), js(v))).collect();
    JsValue::Object(Rc::new(m))
}
/// the parts of the page's own script that come with its code
pub fn templates(seen: Rc<RefCell<Vec<J>>>) {
    wasm_bindgen::host(Box::new(move |name, source, args| match source {
        Some(s) if args.len() == 1 => {
            seen.borrow_mut().push(json!([name, s, args[0].template()]));
            Ok(JsValue::Str(args[0].template()))
        }
        _ => panic!("HARNESS the page has no {name}"),
    }));
}
pub fn page(c: &J) -> J {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let seen = Rc::new(RefCell::new(vec![]));
    templates(seen.clone());
    let wire = Arc::new(Mutex::new((vec![], J::Null)));
    let w = wire.clone();
    reqwest::handler(Box::new(move |r| {
        let mut w = w.lock().unwrap();
        w.0.push(json!({"method": r.method, "url": r.url, "body": r.body}));
        let a = &w.1;
        match a["error"].as_str() {
            Some(e) => Err(e.into()),
            None => Ok(reqwest::Answer {
                status: a["status"].as_u64().unwrap_or(200) as u16,
                text: a["text"].as_str().unwrap().into(),
                broken: a["broken"] == true,
                pause: 1,
            }),
        }
    }));
    let mut out = vec![];
    for k in c["calls"].as_array().unwrap() {
        wire.lock().unwrap().1 = k["answer"].clone();
        let text = |n: &str| k["fields"][n].as_str().unwrap().to_string();
        let e = k["endpoint"].as_str().unwrap().to_string();
        let r: Result<String, JsError> = rt.block_on(async {
            match (c["app"].as_str().unwrap(), k["op"].as_str().unwrap()) {
                ("berkeley", "lock") => mina_berkeley::js_exports::lock_account(e, text("publicKey")).await,
                ("berkeley", "unlock") => mina_berkeley::js_exports::unlock_account(e, text("publicKey"), text("password")).await,
                ("berkeley", "pay") => mina_berkeley::js_exports::send_payment(e, object(&k["fields"]).into()).await,
                ("mvp", "lock") => wasm_mvp::payment::lock_account(text("publicKey")).await,
                ("mvp", "unlock") => wasm_mvp::payment::unlock_account(text("publicKey"), text("password")).await,
                ("mvp", "pay") => wasm_mvp::payment::send_payment(object(&k["fields"]).into()).await,
                ("mvp", "info") => wasm_mvp::payment::account_info(text("publicKey")).await,
                o => panic!("HARNESS {o:?}"),
            }
        });
        let asked = std::mem::take(&mut wire.lock().unwrap().0);
        out.push(match r {
            Ok(t) => json!({"asked": asked, "answer": t}),
            Err(e) => json!({"asked": asked, "err": e.0}),
        });
    }
    let templates = seen.borrow().clone();
    json!({"ok": true, "out": out, "templates": templates})
}

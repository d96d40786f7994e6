//! Executes conformance cases against the page's peer to peer part: the transport it is given and
//! what it makes of the status of a node (spec/NodeStatus.tla).
#[path = "../../common/driver.rs"]
mod driver;
use js_sys::Uint8Array;
use libp2p::{Bytes, Heard, Script};
use mina_network::p2p::{TransportBuilder, TransportConfig, MAINNET_CONFIG};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use std::task::{Context, Poll};
use wasm_bindgen::JsValue;

struct Log;
static QUIET: Log = Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // arguments are formatted, as the page's logger does
        let _ = r.args().to_string();
    }
    fn flush(&self) {}
}
/// the answer, or that it waits for something that never comes
fn drive<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(std::task::Waker::noop());
    for _ in 0..10000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
        if libp2p::script(|s| s.log.last().map_or(false, |l| l == "idle")) {
            return None;
        }
    }
    panic!("never gets anywhere")
}
fn run(c: &J) -> J {
    match c["op"].as_str().unwrap() {
        "connect" => connect(c),
        "transport" => transport(c),
        o => panic!("HARNESS unknown op {o}"),
    }
}
fn connect(c: &J) -> J {
    libp2p::script(|s| {
        *s = Script {
            dial_fails: c["dialfails"] == json!(true),
            events: c["events"].as_array().unwrap().iter().map(|e| {
                let p = e[1].as_u64().unwrap() as usize;
                if e[0] == "connected" { Heard::Connected(p) } else { Heard::Other(p) }
            }).collect(),
            streams: c["streams"].as_array().unwrap().iter().map(|s| s.as_array().unwrap().iter().map(|b| match b.as_str().unwrap() {
                "wait" => Bytes::Wait,
                "fails" => Bytes::Fails,
                h => Bytes::Some(hex::decode(h).unwrap()),
            }).collect()).collect(),
            log: vec![],
        }
    });
    let seen: Rc<RefCell<Vec<J>>> = Default::default();
    let s = seen.clone();
    wasm_bindgen::host(Box::new(move |name, _, args| {
        match name {
            "emit" => {
                let v = match &args[2] {
                    JsValue::Any(a) => json!(hex::encode(a.downcast_ref::<Vec<u8>>().expect("HARNESS bytes"))),
                    v => json!({"text": v.template()}),
                };
                s.borrow_mut().push(json!([args[1].template(), v]));
            }
            n => panic!("HARNESS {n}"),
        }
        Ok(JsValue::Undefined)
    }));
    if c["listens"] != json!(false) {
        wasm_mvp::js_exports::set_event_emitter(JsValue::Undefined.into());
    }
    let b = hex::decode(c["request"].as_str().unwrap()).unwrap();
    let u = Uint8Array::new_with_length(b.len() as u32);
    u.copy_from(&b);
    let a = match drive(wasm_mvp::js_exports::connect(u)) {
        None => json!("waits"),
        Some(Ok(r)) => json!({"response": hex::encode(r.to_vec())}),
        Some(Err(e)) => json!({"err": e.0}),
    };
    json!({"ok": true, "answer": a, "emitted": *seen.borrow(), "log": libp2p::script(|s| std::mem::take(&mut s.log))})
}
fn config(n: &str) -> TransportConfig<'static> {
    match n {
        "mainnet" => MAINNET_CONFIG.clone(),
        "default" => TransportConfig::default(),
        "a" => TransportConfig { rendezvous_string: b"/coda/0.0.1/somewhere else", ..Default::default() },
        "b" => TransportConfig { rendezvous_string: b"x", mplex_protocol_name: b"/own/mplex" },
        n => panic!("HARNESS {n}"),
    }
}
fn transport(c: &J) -> J {
    let mut b: Option<TransportBuilder> = None;
    for s in c["steps"].as_array().unwrap() {
        let a = s["arg"].as_str().unwrap_or("");
        b = Some(match (s["do"].as_str().unwrap(), b) {
            ("new", None) => TransportBuilder::new(),
            ("key", None) => TransportBuilder::new_with_key(libp2p::identity::Keypair(11)),
            ("keyconfig", None) => TransportBuilder::new_with_key_and_config(libp2p::identity::Keypair(13), &config(a)),
            ("config", Some(b)) => b.with_config(&config(a)),
            ("mainnet", Some(b)) => b.with_mainnet_config(),
            ("timeout", Some(b)) => b.with_timeout(std::time::Duration::from_secs(a.parse().unwrap())),
            (o, _) => panic!("HARNESS {o}"),
        });
    }
    match b.unwrap().build() {
        Ok((t, p)) => json!({"ok": true, "made": libp2p::swarm::describe(&t.0, p)}),
        Err(e) => json!({"ok": true, "err": e.to_string()}),
    }
}
fn main() {
    let _ = log::set_logger(&QUIET);
    log::set_max_level(log::LevelFilter::Trace);
    driver::drive(run)
}

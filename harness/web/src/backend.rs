//! Drives the two networks of the pages (spec/Backend.tla).
use mina_network::processor::js::{graphql_api_berkeley::*, graphql_api_v1::*};
use mina_network::processor::*;
use mina_serialization_types::json::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use tokio::sync::mpsc;
use wasm_bindgen::JsValue;

pub type Asked = Rc<RefCell<Vec<J>>>;
thread_local! {
    static DOC: RefCell<String> = RefCell::new(String::new());
    static KNOWN: RefCell<std::collections::BTreeMap<String, J>> = Default::default();
}
/// the block numbered n
pub fn doc(n: &str) -> String {
    DOC.with(|d| d.borrow().replace("@N@", n))
}
pub fn docs(c: &J) {
    if let Some(t) = c["text"].as_str() {
        DOC.with(|d| *d.borrow_mut() = t.to_string());
    } else if let Some(f) = c["doc"].as_str() {
        DOC.with(|d| {
            if d.borrow().is_empty() {
                *d.borrow_mut() = std::fs::read_to_string(f).unwrap()
            }
        })
    }
}
/// what the page gives: a JSON text, an exception, another value
pub fn value(a: &J) -> Result<JsValue, JsValue> {
    match a["t"].as_str().unwrap() {
        "throw" => Err(if a["text"].is_null() { JsValue::any(5) } else { a["text"].as_str().unwrap().into() }),
        "undefined" => Ok(JsValue::Undefined),
        "null" => Ok(JsValue::Null),
        "block" => Ok(doc(&a["n"].to_string()).into()),
        "number" => Ok(JsValue::Number(7.0)),
        _ => Ok(a["text"].as_str().unwrap().into()),
    }
}
/// answers the questions of the network; answers: {"list": .., "1": .., "endpoint": ..}
pub fn page(answers: Rc<RefCell<J>>, asked: Asked) {
    wasm_bindgen::host(Box::new(move |name, _, args| {
        let text = |i: usize| args[i].as_string();
        match name {
            "fetch_block_json_str" => {
                let (h, s) = (args[0].as_f64().unwrap(), text(1).unwrap());
                asked.borrow_mut().push(json!([name, h, s]));
                value(&answers.borrow()[&s])
            }
            "query_latest_blocks_json_str" => {
                asked.borrow_mut().push(json!([name, args[0].as_f64()]));
                value(&answers.borrow()["list"])
            }
            "fetch_best_chain_json_str" => {
                let e = text(0).unwrap();
                let names: Vec<_> = match &args[1] {
                    JsValue::Array(a) => a.iter().map(|x| x.as_string()).collect(),
                    _ => panic!("HARNESS accounts"),
                };
                asked.borrow_mut().push(json!([name, e, names]));
                value(&answers.borrow()[&e])
            }
            n => panic!("HARNESS the page has no {n}"),
        }
    }));
}
pub async fn settle() {
    for _ in 0..60 {
        tokio::task::yield_now().await;
    }
}
pub fn local<F: Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, f)
}
trait Net {
    type Doc: 'static;
    fn fresh() -> Self;
    fn seen(d: Self::Doc) -> J;
    fn set(&mut self, s: &J);
    async fn poll(&self) -> anyhow::Result<()>;
    async fn query(&mut self, r: &QueryBlockRequest) -> anyhow::Result<()>;
    fn responder(&mut self, s: mpsc::Sender<Self::Doc>);
}
fn names(s: &J) -> Vec<String> {
    s["list"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
impl Net for NonConsensusGraphQLV1Backend {
    type Doc = ExternalTransitionJson;
    fn fresh() -> Self {
        Self::new()
    }
    fn seen(d: Self::Doc) -> J {
        let v = serde_json::to_value(&d).unwrap();
        let n = v["protocol_state"]["body"]["consensus_state"]["blockchain_length"].as_str().unwrap().to_string();
        let known = KNOWN.with(|k| k.borrow_mut().entry(n.clone()).or_insert_with(|| serde_json::to_value(serde_json::from_str::<ExternalTransitionJson>(&doc(&n)).unwrap()).unwrap()) == &v);
        json!(if known { n.parse::<i64>().unwrap() } else { -1 })
    }
    fn set(&mut self, _: &J) {
        panic!("HARNESS no such setting")
    }
    async fn poll(&self) -> anyhow::Result<()> {
        self.poll_latest_once().await
    }
    async fn query(&mut self, r: &QueryBlockRequest) -> anyhow::Result<()> {
        self.query_block(r).await
    }
    fn responder(&mut self, s: mpsc::Sender<Self::Doc>) {
        self.set_block_responder(s)
    }
}
impl Net for NonConsensusGraphQLBerkeleyBackend {
    type Doc = J;
    fn fresh() -> Self {
        Self::new()
    }
    fn seen(d: J) -> J {
        d
    }
    fn set(&mut self, s: &J) {
        match s["op"].as_str().unwrap() {
            "apis" => self.set_api_list(names(s).into_iter()),
            _ => self.set_tracking_accounts(names(s).into_iter()),
        }
    }
    async fn poll(&self) -> anyhow::Result<()> {
        self.poll_latest_once().await
    }
    async fn query(&mut self, r: &QueryBlockRequest) -> anyhow::Result<()> {
        self.query_block(r).await
    }
    fn responder(&mut self, s: mpsc::Sender<J>) {
        self.set_block_responder(s)
    }
}
async fn drive<N: Net>(c: &J) -> J {
    docs(c);
    let (answers, asked) = (Rc::new(RefCell::new(J::Null)), Asked::default());
    page(answers.clone(), asked.clone());
    let lazy = c["lazy"] == true;
    let mut net = N::fresh();
    let mut line: Option<mpsc::Receiver<N::Doc>> = None;
    let mut out = vec![];
    for s in c["steps"].as_array().unwrap() {
        asked.borrow_mut().clear();
        *answers.borrow_mut() = s["answers"].clone();
        let mut got = vec![];
        let mut err = false;
        match s["op"].as_str().unwrap() {
            "open" => {
                let (a, b) = mpsc::channel(c["cap"].as_u64().unwrap() as usize);
                net.responder(a);
                line = Some(b);
            }
            // the page goes away, the network remains
            "close" => line = line.map(|mut l| { l.close(); l }),
            "poll" | "query" => {
                let r = QueryBlockRequest { height: s["height"].as_u64().unwrap_or(0) as usize, state_hash: s["hash"].as_str().unwrap_or("").into() };
                let poll = s["op"] == "poll";
                let mut job: Pin<Box<dyn Future<Output = anyhow::Result<()>> + '_>> = if poll { Box::pin(net.poll()) } else { Box::pin(net.query(&r)) };
                let mut rounds = 0;
                let r = loop {
                    tokio::select! {
                        biased;
                        r = &mut job => break r,
                        _ = async { if lazy { settle().await } else { tokio::task::yield_now().await } } => {}
                    }
                    if let Some(Ok(d)) = line.as_mut().map(|l| l.try_recv()) {
                        got.push(N::seen(d));
                    }
                    rounds += 1;
                    assert!(rounds < 5000, "never ends");
                };
                drop(job);
                while let Some(Ok(d)) = line.as_mut().map(|l| l.try_recv()) {
                    got.push(N::seen(d));
                }
                err = r.is_err();
            }
            _ => net.set(s),
        }
        out.push(json!({"asked": *asked.borrow(), "got": got, "err": err}));
    }
    json!({"ok": true, "out": out})
}
pub fn backend(c: &J) -> J {
    local(async {
        match c["kind"].as_str().unwrap() {
            "v1" => drive::<NonConsensusGraphQLV1Backend>(c).await,
            _ => drive::<NonConsensusGraphQLBerkeleyBackend>(c).await,
        }
    })
}

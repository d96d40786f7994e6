//! Drives the processor through a schedule of environment steps (spec/Processor.tla).
use crate::processor::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::future::{poll_fn, Future};
use std::pin::pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tokio::sync::mpsc;

#[derive(Debug, Clone)]
pub struct Raw(i64, bool);
pub struct Converted(i64);
impl TryFrom<Raw> for Converted {
    type Error = String;
    fn try_from(b: Raw) -> Result<Self, String> {
        if b.1 {
            Ok(Converted(b.0))
        } else {
            Err("bad block".into())
        }
    }
}
#[derive(Default)]
struct World {
    added: Vec<i64>,
    queried: Vec<i64>,
    adding: i64,
    querying: i64,
    nb: i64,
    nr: i64,
    intact: bool,
    add_cmd: Option<String>,
    query_cmd: Option<String>,
    add_waker: Option<Waker>,
    query_waker: Option<Waker>,
    blocks: Option<mpsc::Sender<Raw>>,
}
type W = Rc<RefCell<World>>;
struct Frontier(W, Option<mpsc::Sender<QueryBlockRequest>>);
struct Ops(W);

impl TransitionFrontier for Frontier {
    type Block = Converted;
    async fn add_block(&mut self, b: Converted) -> anyhow::Result<()> {
        {
            let mut w = self.0.borrow_mut();
            w.added.push(b.0);
            w.adding = b.0;
        }
        loop {
            let cmd = poll_fn(|cx| {
                let mut w = self.0.borrow_mut();
                match w.add_cmd.take() {
                    Some(c) => Poll::Ready(c),
                    None => {
                        w.add_waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            })
            .await;
            match cmd.as_str() {
                "request" => {
                    let r = {
                        let mut w = self.0.borrow_mut();
                        w.nr += 1;
                        w.nr
                    };
                    let _ = self.1.as_ref().unwrap().send(QueryBlockRequest { height: r as usize, state_hash: format!("h{r}") }).await;
                }
                c => {
                    self.0.borrow_mut().adding = 0;
                    return if c == "added" { Ok(()) } else { Err(anyhow::anyhow!("refused")) };
                }
            }
        }
    }
    fn set_block_requester(&mut self, s: mpsc::Sender<QueryBlockRequest>) {
        self.1 = Some(s);
    }
}
impl NonConsensusNetworkingOps for Ops {
    type Block = Raw;
    fn set_block_responder(&mut self, s: mpsc::Sender<Raw>) {
        self.0.borrow_mut().blocks = Some(s);
    }
    async fn query_block(&mut self, r: &QueryBlockRequest) -> anyhow::Result<()> {
        {
            let mut w = self.0.borrow_mut();
            w.queried.push(r.height as i64);
            w.querying = r.height as i64;
            w.intact &= r.state_hash == format!("h{}", r.height);
        }
        loop {
            let cmd = poll_fn(|cx| {
                let mut w = self.0.borrow_mut();
                match w.query_cmd.take() {
                    Some(c) => Poll::Ready(c),
                    None => {
                        w.query_waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            })
            .await;
            match cmd.as_str() {
                "respond" | "respondbad" => {
                    let (b, s) = {
                        let mut w = self.0.borrow_mut();
                        w.nb += 1;
                        (Raw(w.nb, cmd == "respond"), w.blocks.clone().unwrap())
                    };
                    let _ = s.send(b).await;
                }
                c => {
                    self.0.borrow_mut().querying = 0;
                    return if c == "answered" { Ok(()) } else { Err(anyhow::anyhow!("unavailable")) };
                }
            }
        }
    }
}
fn ready<F: Future>(f: F) -> bool {
    let mut f = pin!(f);
    let w = futures_noop();
    f.as_mut().poll(&mut Context::from_waker(&w)).is_ready()
}
pub fn futures_noop() -> Waker {
    struct N;
    impl std::task::Wake for N {
        fn wake(self: std::sync::Arc<Self>) {}
    }
    std::sync::Arc::new(N).into()
}

pub fn schedule(c: &J) -> J {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let local = tokio::task::LocalSet::new();
    let log: Vec<String> = c["log"].as_array().unwrap().iter().map(|x| x["a"].as_str().unwrap().to_string()).collect();
    let out = local.block_on(&rt, async move {
        let w: W = Rc::new(RefCell::new(World { intact: true, ..Default::default() }));
        let p = Rc::new(NetworkMessageProcessor::<Raw, Converted, _, _>::new(Frontier(w.clone(), None), Ops(w.clone())));
        let q = p.clone();
        let run = tokio::task::spawn_local(async move { q.run().await });
        let mut out = vec![];
        settle().await;
        for a in log {
            match a.as_str() {
                "push" | "pushbad" => {
                    let (b, s) = {
                        let mut w = w.borrow_mut();
                        w.nb += 1;
                        (Raw(w.nb, a == "push"), w.blocks.clone().unwrap())
                    };
                    tokio::task::spawn_local(async move {
                        let _ = s.send(b).await;
                    });
                }
                "request" | "added" | "failadd" => {
                    let wk = {
                        let mut w = w.borrow_mut();
                        w.add_cmd = Some(a.clone());
                        w.add_waker.take()
                    };
                    wk.map(|x| x.wake());
                }
                _ => {
                    let wk = {
                        let mut w = w.borrow_mut();
                        w.query_cmd = Some(a.clone());
                        w.query_waker.take()
                    };
                    wk.map(|x| x.wake());
                }
            }
            settle().await;
            let idle = { let w = w.borrow(); (w.adding == 0, w.querying == 0) };
            let readable = !idle.0 || ready(p.transition_frontier());
            let ops = !idle.1 || (ready(p.nonconsensus_ops()) && ready(p.nonconsensus_ops_mut()));
            let w = w.borrow();
            out.push(json!({"added": w.added, "queried": w.queried, "adding": w.adding, "querying": w.querying,
                "taken": w.add_cmd.is_none() && w.query_cmd.is_none(), "readable": readable, "ops": ops,
                "intact": w.intact, "running": !run.is_finished()}));
        }
        out
    });
    json!({"ok": true, "out": out})
}
async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}

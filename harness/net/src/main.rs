//! Executes conformance cases against the real processor and transition frontier of network/.
//! (The network crate as a whole needs libp2p, which is not available: its processor module is
//! compiled from its own source.)
#[path = "../../common/driver.rs"]
mod driver;
#[allow(dead_code)]
#[path = "../../chain/src/command.rs"]
mod command;
#[allow(dead_code)]
#[path = "../../chain/src/fork.rs"]
mod fork;
mod answer;
mod frontier;
#[allow(dead_code)]
#[path = "../../chain/src/graphql.rs"]
mod graphql;
#[allow(dead_code)]
#[path = "/repo/network/src/processor/mod.rs"]
pub mod processor;
mod schedule;
use serde_json::Value as J;

fn run(c: &J) -> J {
    match c["op"].as_str().unwrap() {
        "schedule" => schedule::schedule(c),
        "answer" => answer::answer(c),
        "frontier" => frontier::frontier(c),
        o => panic!("HARNESS unknown op {o}"),
    }
}
fn main() {
    driver::drive(run)
}

//! Executes conformance cases against the real secrets and ledger crates.
#[path = "../../common/driver.rs"]
mod driver;
mod account;
mod wallet;
use serde_json::Value as J;

fn run(c: &J) -> J {
    match c["op"].as_str().unwrap() {
        "seal" => wallet::seal(c),
        "wallet" => wallet::wallet(c),
        "account" => account::account(c),
        "ledger" => account::ledger(c),
        o => panic!("HARNESS unknown op {o}"),
    }
}
fn main() {
    driver::drive(run)
}

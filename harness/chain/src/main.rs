//! Executes conformance cases against the real consensus, base and crypto crates.
#[path = "../../common/driver.rs"]
mod driver;
mod block;
mod command;
mod fork;
mod genesis;
mod graphql;
mod input;
mod parts;
mod textform;
use serde_json::Value as J;

fn run(c: &J) -> J {
    match c["op"].as_str().unwrap() {
        "fork" => fork::fork(c),
        "chain" => fork::chain(c),
        "signed" => command::signed(c),
        "document" => block::document(c),
        "block" => command::block(c),
        "built" => command::built(c),
        "genesis" => genesis::genesis(c),
        "memo" => command::memo(c),
        "text" => command::text(c),
        "graphql" => graphql::graphql(c),
        "stateinput" => input::stateinput(c),
        "pack" => input::pack(c),
        "form" => textform::form(c),
        "parts" => parts::parts(c),
        "keys" => graphql::keys(c),
        o => panic!("HARNESS unknown op {o}"),
    }
}
fn main() {
    driver::drive(run)
}

//! Executes conformance cases against the code of the pages: the network backends of the browser
//! and the functions the pages export.
#[path = "../../common/driver.rs"]
mod driver;
mod backend;
mod page;
use serde_json::Value as J;

fn run(c: &J) -> J {
    match c["op"].as_str().unwrap() {
        "backend" => backend::backend(c),
        "page" => page::page(c),
        o => panic!("HARNESS unknown op {o}"),
    }
}
fn main() {
    driver::drive(run)
}

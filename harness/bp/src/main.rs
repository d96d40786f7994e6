//! Executes conformance cases (one JSON object per line of the input file) against the real
//! bin-prot crate and writes one JSON result per line.  Nothing in here decides anything: the
//! oracle is the TLA+ specification in /verif/spec.
mod dynty;
mod io;
mod loose;
mod prim;

#[path = "../../common/driver.rs"]
mod driver;
pub use driver::bytes_of;
use serde_json::Value as J;

pub fn err_class(e: &bin_prot::error::Error) -> String {
    let d = format!("{:?}", e);
    let end = d
        .find(|c: char| !(c.is_alphanumeric() || c == '_'))
        .unwrap_or(d.len());
    d[..end].to_string()
}

fn run(case: &J) -> J {
    match case["op"].as_str().unwrap() {
        "enc" => dynty::op_enc(case),
        "dec" => dynty::op_dec(case),
        "encseq" => dynty::op_encseq(case),
        "decseq" => dynty::op_decseq(case),
        "loose" => loose::op_loose(case),
        "hybrid" => loose::op_hybrid(case),
        "layout" => loose::op_layout(case),
        "vindex" => loose::op_vindex(case),
        "venc" => loose::op_venc(case),
        "rp" => prim::op_read(case),
        "wp" => prim::op_write(case),
        "hash" => prim::op_hash(case),
        "charenc" => prim::op_charenc(case),
        "mapdec" => prim::op_mapdec(case),
        "mapenc" => prim::op_mapenc(case),
        "with" => prim::op_with(case),
        "big" => prim::op_big(case),
        o => panic!("HARNESS unknown op {o}"),
    }
}

fn main() {
    driver::drive(run);
}

//! Runs conformance cases: one JSON object per line in, one JSON result per line out.
use serde_json::{json, Value as J};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn bytes_of(j: &J) -> Vec<u8> {
    match j {
        J::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        J::Null => vec![],
        _ => panic!("HARNESS bad bytes"),
    }
}

pub fn drive(run: fn(&J) -> J) {
    let a: Vec<String> = std::env::args().collect();
    let skip: usize = a.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    std::panic::set_hook(Box::new(|_| {}));
    let inp = BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let f = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&a[2])
        .unwrap();
    let mut out = std::io::LineWriter::new(f);
    // deep recursion of layouts: give the worker a large stack
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            for (i, line) in inp.lines().enumerate() {
                let line = line.unwrap();
                if i < skip || line.is_empty() {
                    continue;
                }
                let mut de = serde_json::Deserializer::from_str(&line);
                de.disable_recursion_limit();
                let case: J = serde::Deserialize::deserialize(&mut de).expect("HARNESS json");
                let r = match catch_unwind(AssertUnwindSafe(|| run(&case))) {
                    Ok(r) => r,
                    Err(p) => {
                        let m = p
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        if m.starts_with("HARNESS") {
                            eprintln!("{m} in case {i}");
                            std::process::exit(70);
                        }
                        json!({"ok": false, "err": "PANIC", "msg": m, "toks": [], "n": 0, "out": []})
                    }
                };
                writeln!(out, "{}", r).unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
}

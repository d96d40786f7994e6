//! The messages of /repo's .proto files (scalar fields of proto3), as protobuf-codegen names them.
use std::fmt::Write;
fn main() {
    let dir = "/repo/apps/wasm/mvp/proto";
    println!("cargo:rerun-if-changed={dir}");
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("protobuf");
    std::fs::create_dir_all(&out).unwrap();
    let mut mods = String::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.extension().map_or(true, |x| x != "proto") {
            continue;
        }
        let stem = p.file_stem().unwrap().to_str().unwrap().to_string();
        let text = std::fs::read_to_string(&p).unwrap();
        let text: String = text.split("/*").map(|t| t.split_once("*/").map_or(t, |x| x.1)).collect();
        let text: String = std::iter::once("\n".to_string()).chain(text.lines().map(|l| l.split("//").next().unwrap().to_string() + "\n")).collect();
        let mut o = String::new();
        for m in text.split("\nmessage ").skip(1) {
            let (name, body) = m.split_once('{').unwrap();
            let name = name.trim();
            let fields: Vec<(String, String, u64)> = body.split_once('}').unwrap().0.split(';').filter(|f| !f.trim().is_empty()).map(|f| {
                let (l, n) = f.split_once('=').unwrap();
                let mut l = l.split_whitespace();
                (l.next().unwrap().into(), l.next().unwrap().into(), n.trim().parse().unwrap())
            }).collect();
            writeln!(o, "#[derive(Clone, Debug, Default, PartialEq)] pub struct {name} {{").unwrap();
            for (t, n, _) in &fields {
                let t = match t.as_str() { "string" => "String", "bool" => "bool", "int64" => "i64", "int32" => "i32", "uint64" => "u64", "uint32" => "u32", t => panic!("{t}") };
                writeln!(o, "pub {n}: {t},").unwrap();
            }
            writeln!(o, "}} impl {name} {{ pub fn new() -> Self {{ Self::default() }} }} impl protobuf::Message for {name} {{").unwrap();
            writeln!(o, "fn write_to_bytes(&self) -> protobuf::Result<Vec<u8>> {{ let mut o = vec![];").unwrap();
            let mut sorted = fields.clone();
            sorted.sort_by_key(|f| f.2);
            for (t, n, k) in &sorted {
                match t.as_str() {
                    "string" => writeln!(o, "protobuf::rt::string({k}, &self.{n}, &mut o);"),
                    _ => writeln!(o, "protobuf::rt::number({k}, self.{n} as i64 as u64, &mut o);"),
                }.unwrap();
            }
            writeln!(o, "Ok(o) }} fn parse_from_bytes(b: &[u8]) -> protobuf::Result<Self> {{ let mut m = Self::default(); for (k, f) in protobuf::rt::fields(b)? {{ match k {{").unwrap();
            for (t, n, k) in &fields {
                match t.as_str() {
                    "string" => writeln!(o, "{k} => if let Some(t) = protobuf::rt::text(&f)? {{ m.{n} = t }}"),
                    "bool" => writeln!(o, "{k} => if let protobuf::rt::Field::Number(v) = f {{ m.{n} = v != 0 }}"),
                    _ => writeln!(o, "{k} => if let protobuf::rt::Field::Number(v) = f {{ m.{n} = v as _ }}"),
                }.unwrap();
            }
            writeln!(o, "_ => {{}} }} }} Ok(m) }} }}").unwrap();
        }
        std::fs::write(out.join(format!("{stem}.rs")), o).unwrap();
        writeln!(mods, "pub mod {stem} {{ include!(concat!(env!(\"OUT_DIR\"), \"/protobuf/{stem}.rs\")); }}").unwrap();
    }
    std::fs::write(out.join("mod.rs"), mods).unwrap();
}

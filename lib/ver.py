"""Conformance suites for protocol/versioned and protocol/serialization-types-macros."""
from core import *
from bp import note, short, DEAD
import gen

THOROUGH = TIER == "thorough"
_bin = None
def ver():
    global _bin
    if _bin is None:
        _bin = cargo_build("ver", ["ver"])[0]
    return _bin

def vnote(rep, kind, what, case, res, want=None):
    rep.violation(kind, what, dict(harness="ver", case=case, observed=res, expected=want))

def suite_versioned(rep, kinds):
    cases, r = tlc_export("MC_Versioned")
    rep.spec("MC_Versioned", r)
    ops = [dict(op=c["mode"], ty=c["ty"], stack=c["stack"], toks=c["toks"], **{"in": c["in"]}) for c in cases]
    res = run_cases(ver(), ops)
    rep.ran("MC_Versioned", len(ops), traces=len(ops))
    num = lambda t: t["b"][0] + 256 * t["b"][1]
    for c, o, x in zip(cases, ops, res):
        k = len(c["stack"])
        if c["mode"] == "make":
            good = x["ok"] and x["vers"] == c["stack"] and x["toks"] == c["toks"] == x["back"] and x["out"] == c["in"] and x["encok"]
        elif c["st"] == "ok":
            good = x["ok"] and x["vers"] == [num(t) for t in c["got"][:k]] and x["toks"] == c["got"][k:] and x["n"] == c["n"] and x["out"] == c["re"]
        else:
            good = not x["ok"] and x["err"] == c["st"]
        if not good:
            vnote(rep, "versioned", "version stack %s, %s %s: specification %s, code %s"
                  % (c["stack"], c["mode"], c["toks"] or c["in"], short({q: c[q] for q in ("st", "n", "got", "re")}), short(x)), o, x, c)
    rep.sample(dict(spec_behaviour=cases[len(cases) // 3], code=res[len(cases) // 3]))
    cases, r = tlc_export("MC_Convert", {"MaxWalk": 7} if THOROUGH else {})
    rep.spec("MC_Convert", r)
    ops = [dict(op="walk", start=c["start"], steps=c["steps"], x=c["x"]) for c in cases]
    res = run_cases(ver(), ops)
    rep.ran("MC_Convert", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        if not (x["ok"] and x["vers"] == c["vers"] and x["x"] == c["x"]):
            vnote(rep, "versioned", "conversions %s of %s starting at %s: specification %s %s, code %s" % (c["steps"], c["x"], c["start"], c["vers"], c["x"], short(x)), o, x, c)
    rep.sample(dict(walk=cases[len(cases) // 2]))

# ------------------------------------------------------------------------------ AutoFrom
RT = {  # wrapper -> (source type, target type, build expression, view of a reference as Vec<i64>)
    "plain": ("i64", "I64", "g[0]", "vec![*{r}]", "vec![{r}.0]"),
    "vec": ("Vec<i64>", "Vec<I64>", "g.clone()", "{r}.clone()", "{r}.iter().map(|x| x.0).collect::<Vec<i64>>()"),
    "qvec": ("std::vec::Vec<i64>", "std::vec::Vec<I64>", "g.clone()", "{r}.clone()", "{r}.iter().map(|x| x.0).collect::<Vec<i64>>()"),
    "opt": ("Option<i64>", "Option<I64>", "g.get(0).copied()", "{r}.iter().copied().collect::<Vec<i64>>()", "{r}.iter().map(|x| x.0).collect::<Vec<i64>>()"),
    "box": ("Box<i64>", "Box<I64>", "Box::new(g[0])", "vec![**{r}]", "vec![{r}.0]"),
    "nest": ("Inner", "InnerB", "Inner { a: g[0], b: g[1] }", "vec![{r}.a, {r}.b]", "vec![{r}.a.0, {r}.b.0]"),
}

def rust_shape(idx, sh):
    """Rust module for one shape: source type A, targets B (same order) and C (opposite order)."""
    kind, vs = sh["k"], sh["v"]
    o = ["mod m%d {" % idx, "use super::*;"]
    def fields(v, side, rev):
        named = v["k"] in ("named", "struct")
        fs = [("f%d: " % (i + 1) if named else "") + RT[w][side] for i, w in enumerate(v["f"])]
        if rev and named: fs = fs[::-1]
        return fs
    more = "DEF"[:sh["nt"] - 2]
    for name, side, rev in [("A", 0, False), ("B", 1, False), ("C", 1, True)] + [(m, 1, m == "E") for m in more]:
        o.append("#[derive(Clone, Debug, PartialEq%s)]" % (", mina_serialization_types_macros::AutoFrom" if name == "A" else ""))
        if name == "A": o.append("\n".join("#[auto_from(%s)]" % t for t in "BC" + more))
        if kind == "named": o.append("pub struct %s { %s }" % (name, ", ".join(fields(vs[0], side, rev))))
        elif kind == "unnamed": o.append("pub struct %s(%s);" % (name, ", ".join(fields(vs[0], side, rev))))
        else:
            vv = []
            for v in (vs[::-1] if rev else vs):
                f = ", ".join(fields(v, side, rev))
                vv.append(v["n"] + ("" if v["k"] == "unit" else "(%s)" % f if v["k"] == "tuple" else " { %s }" % f))
            o.append("pub enum %s { %s }" % (name, ", ".join(vv)))
    # builder of A from JSON
    def built(v):
        named = v["k"] in ("named", "struct")
        parts = []
        for i, w in enumerate(v["f"]):
            e = "{ let g = fld(v, %d); %s }" % (i, RT[w][2])
            parts.append(("f%d: %s" % (i + 1, e)) if named else e)
        return ", ".join(parts)
    o.append("fn build(v: &J) -> A {")
    if kind == "named": o.append("A { %s }" % built(vs[0]))
    elif kind == "unnamed": o.append("A(%s)" % built(vs[0]))
    else:
        o.append('match v["variant"].as_str().unwrap() {')
        for v in vs:
            o.append('"%s" => A::%s%s,' % (v["n"], v["n"], "" if v["k"] == "unit" else "(%s)" % built(v) if v["k"] == "tuple" else " { %s }" % built(v)))
        o.append('_ => panic!("HARNESS variant") }')
    o.append("}")
    for name, side in [("A", 3), ("B", 4), ("C", 4)] + [(m, 4) for m in more]:
        o.append("fn show_%s(x: &%s) -> J {" % (name.lower(), name))
        def lst(v, refs):
            nm = lambda i: "f%d" % (i + 1) if v["k"] in ("named", "struct") else str(i)
            return 'json!({"variant": "%s", "fields": [%s]})' % (v["n"], ", ".join('["%s", %s]' % (nm(i), RT[w][side].format(r=refs[i])) for i, w in enumerate(v["f"])))
        if kind in ("named", "unnamed"):
            v = vs[0]
            refs = ["(&x.%s)" % (("f%d" % (i + 1)) if kind == "named" else i) for i in range(len(v["f"]))]
            o.append(lst(v, refs))
        else:
            o.append("match x {")
            for v in vs:
                b = ["w%d" % i for i in range(len(v["f"]))]
                pat = "" if v["k"] == "unit" else "(%s)" % ", ".join(b) if v["k"] == "tuple" else " { %s }" % ", ".join("f%d: w%d" % (i + 1, i) for i in range(len(b)))
                o.append("%s::%s%s => %s," % (name, v["n"], pat, lst(v, b)))
            o.append("}")
        o.append("}")
    o.append("pub fn run(c: &J) -> J { let a = build(&c[\"value\"]); match (c[\"target\"].as_u64().unwrap(), c[\"vers\"].as_array().unwrap().len()) {")
    for t, T in enumerate("BC" + more, 1):
        ty = T
        ini = [None, "1", "2", "3", "400"]
        for lvl in range(5):
            if lvl: ty = "Versioned<%s, %s>" % (ty, ini[lvl])
            view = "x" + ".t" * lvl
            vers = ", ".join("x%s.version" % (".t" * i) for i in range(lvl))
            o.append("(%d, %d) => { let x: %s = a.clone().into(); let got = show_%s(&%s); let vers: Vec<u16> = vec![%s]; let back: A = x.into(); fin(got, vers, show_a(&back), back == a) }"
                     % (t, lvl, ty, T.lower(), view, vers))
    o.append('_ => panic!("HARNESS target") } }\n}')
    return "\n".join(o)

def autofrom_crate(shapes):
    d = os.path.join(BUILD, "af_src")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    def put(name, text):
        f = os.path.join(d, name)
        if not os.path.exists(f) or open(f).read() != text:
            open(f, "w").write(text)
    put("Cargo.toml", """[package]
name = "af"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
versioned = { path = "%s/protocol/versioned" }
mina-serialization-types-macros = { path = "%s/protocol/serialization-types-macros" }
serde_json = { version = "1", features = ["unbounded_depth"] }
serde = "1"

[profile.dev]
opt-level = 0
debug = 0
""" % (REPO, REPO))
    put("src/lib.rs", "")
    lock = os.path.join(VERIF, "harness", "af.Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    head = """#![allow(unused, clippy::all)]
#[path = "%s/harness/common/driver.rs"]
mod driver;
use serde_json::{json, Value as J};
use versioned::Versioned;
#[derive(Clone, Debug, PartialEq)]
pub struct I64(i64);
impl From<i64> for I64 { fn from(x: i64) -> Self { I64(x) } }
impl From<I64> for i64 { fn from(x: I64) -> Self { x.0 } }
#[derive(Clone, Debug, PartialEq, mina_serialization_types_macros::AutoFrom)]
#[auto_from(InnerB)]
pub struct Inner { a: i64, b: i64 }
#[derive(Clone, Debug, PartialEq)]
pub struct InnerB { b: I64, a: I64 }
fn fld(v: &J, i: usize) -> Vec<i64> { v["fields"][i][1].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() }
fn fin(got: J, vers: Vec<u16>, back: J, same: bool) -> J { json!({"ok": true, "err": "", "got": got, "vers": vers, "back": back, "same": same}) }
""" % VERIF
    body = "\n".join(rust_shape(i, s) for i, s in enumerate(shapes))
    tail = "\nfn run(c: &J) -> J { match c[\"m\"].as_u64().unwrap() {\n%s\n_ => panic!(\"HARNESS module\") } }\nfn main() { driver::drive(run) }\n" % \
        "\n".join("%d => m%d::run(c)," % (i, i) for i in range(len(shapes)))
    put("src/main.rs", head + body + tail)
    return d

def suite_autofrom(rep, kinds):
    cases, r = tlc_export("MC_AutoFrom", {"MaxFields": 3, "MaxVariants": 2} if THOROUGH else {})
    rep.spec("MC_AutoFrom", r)
    shapes, index = [], {}
    for c in cases:
        k = json.dumps(c["shape"], sort_keys=True)
        if k not in index:
            index[k] = len(shapes)
            shapes.append(c["shape"])
    if THOROUGH and len(shapes) > 330:      # keep the generated crate compilable in reasonable time
        keep = set(rng("autofrom").sample(range(len(shapes)), 330))
        cases = [c for c in cases if index[json.dumps(c["shape"], sort_keys=True)] in keep]
        new = {}
        sh2 = []
        for i in sorted(keep):
            new[i] = len(sh2)
            sh2.append(shapes[i])
        index = {k: new[i] for k, i in index.items() if i in keep}
        shapes = sh2
    d = autofrom_crate(shapes)
    tgt = os.path.join(BUILD, "af")
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--lib"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("the crates under test do not build:\n" + p.stdout[-3000:])
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        err = [l for l in p.stdout.splitlines() if l.startswith("error")]
        rep.violation("autofrom", "the conversions derived for the specified shapes do not compile: %s" % "; ".join(err[:3]),
                      dict(harness="af", case=dict(shapes=len(shapes)), observed=dict(compiler=p.stdout[:3000]), expected="compiles"))
        return
    ops = [dict(m=index[json.dumps(c["shape"], sort_keys=True)], value=c["value"], target=c["target"], vers=c["vers"]) for c in cases]
    res = run_cases(os.path.join(tgt, "debug", "af"), ops)
    rep.ran("MC_AutoFrom", len(ops), traces=len(ops))
    rep.parts["MC_AutoFrom"]["derived_types"] = len(shapes)
    canon = lambda v: (v["variant"], sorted(map(tuple, ((a, tuple(b)) for a, b in v["fields"]))))
    for c, o, x in zip(cases, ops, res):
        if not (x["ok"] and canon(x["got"]) == canon(c["want"]) and x["vers"] == c["vers"] and x["same"] and canon(x["back"]) == canon(c["value"])):
            rep.violation("autofrom", "converting %s of shape %s to target %d versions %s: specification %s, code %s"
                          % (short(c["value"]), short(c["shape"]), c["target"], c["vers"], short(c["want"]), short(x)),
                          dict(harness="af", case=dict(shape=c["shape"], **o), observed=x, expected=c["want"]))
    rep.sample(dict(spec_behaviour=cases[len(cases) // 2], code=res[len(cases) // 2]))

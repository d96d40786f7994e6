#!/usr/bin/env python3
"""Plants one bug in /repo, confirms it (build, stable tests, demo both ways), stores it in seeded/<id>,
runs the property's check against it, and restores /repo.
usage: seed.py SPEC.py   where SPEC.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo | sh, feat)]"""
import json, os, subprocess, sys, shutil
R = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# builds and runs the demonstration against the crates of the current directory
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%(deps)s
T
cd "$d"
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet || { echo "demo does not build"; exit 3; }
( ulimit -v 4000000; exec "$d/target/debug/demo" )
"""
DEPS = {"bp": 'bin-prot = { path = "$repo/protocol/bin-prot", features = ["loose_deserialization"] }\nserde = { version = "1", features = ["derive"] }\nserde_json = { version = "1", features = ["unbounded_depth"] }',
        "ver": 'bin-prot = { path = "$repo/protocol/bin-prot" }\nversioned = { path = "$repo/protocol/versioned" }\nmina-serialization-types-macros = { path = "$repo/protocol/serialization-types-macros" }\nserde = { version = "1", features = ["derive"] }'}
KIT_SH = """#!/bin/bash
# builds the stand-ins of the kit with the crates of the current directory, runs the cases, looks at the results
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
tar -C "$d" -xJf "$here/kit.tar.xz"
mkdir -p "$d/.build/websrc/network" && cp -r "$repo/network/src/processor" "$d/.build/websrc/network/"
echo "pub mod processor;" > "$d/.build/websrc/network/lib.rs"
mkdir -p "$d/.build/websrc/network-p2p" && cp -r "$repo/network/src/processor" "$repo/network/src/p2p" "$d/.build/websrc/network-p2p/"
printf 'pub mod p2p;\\npub mod processor;\\n' > "$d/.build/websrc/network-p2p/lib.rs"
grep -rlZ target_arch "$d/.build/websrc" | xargs -0 sed -i 's|target_arch *= *"wasm32"|all()|g'
grep -rlZ /repo/ "$d" --include=Cargo.toml --include=*.rs | xargs -0 sed -i "s|/repo/|$repo/|g"
cd "$d/kit/%(bin)s"
export RUSTUP_TOOLCHAIN=stable RUSTFLAGS="--cap-lints warn --cfg mina_verif" CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet 2> "$d/log" || { cat "$d/log"; echo "demo does not build"; exit 3; }
: > "$d/out"
( ulimit -v 4000000; timeout 60 "$d/target/debug/%(bin)s" "$here/cases.json" "$d/out" 0 ) || true
python3 - "$d/out" <<'P'
import json, sys
r = [json.loads(l) for l in open(sys.argv[1]) if l.strip()]
ok = len(r) == %(n)d and (%(expect)s)
if not ok: print(json.dumps(r)[:2000])
sys.exit(0 if ok else 1)
P
"""
def kit(d):
    sh("mkdir -p /tmp/kitbuild/kit && cp -a %s/harness/{stubs,vendor,crates,common,chain,net,merkle,node,web,crawler,p2p} /tmp/kitbuild/kit/ && tar --sort=name --mtime=2020-01-01 -C /tmp/kitbuild -cJf %s/kit.tar.xz kit" % (V, d), executable="/bin/bash")
    shutil.rmtree("/tmp/kitbuild")
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def restore():
    sh("git -C /repo checkout -- .")
def tests_ok():
    sh("bash /opt/vp/test.sh /tmp/seed_tests.json", cwd=R)
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open("/tmp/seed_tests.json"))
    names = lambda d, k: set(d.get(k, []))
    stable = names(base, "stable") or names(base, "passed") or names(base, "tests")
    return sorted(stable - names(got, "passed"))
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        d = os.path.join(V, "seeded", b["id"])
        assert not sh("git -C /repo status --short").stdout.strip()
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(R, f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
            if b.get("auto"):
                print(sh("python3 tools/record.py %s /tmp/rec_bad.json" % b["prop"], cwd=V).stdout[-500:], end="")
                restore()
                print(sh("python3 tools/record.py - /tmp/rec_bad.json /tmp/rec_good.json", cwd=V).stdout[-500:], end="")
                sh("git -C /repo apply %s/patch.diff" % d)
                strip = lambda r: {k: v for k, v in r.items() if k != "msg"} if isinstance(r, dict) else r
                diff = [(len(json.dumps(g)) + len(json.dumps(g[1])), i, g) for i, (w, g) in enumerate(zip(json.load(open("/tmp/rec_bad.json")), json.load(open("/tmp/rec_good.json")))) if strip(w[2]) != strip(g[2])]
                if not diff:
                    print(b["id"], "NO DIFFERENCE"); continue
                g = min(diff)[2]
                print(b["id"], len(diff), "cases differ, e.g.", json.dumps(g)[:600])
                b.update(cases=[g[1]], feat=g[0], expect="{k: v for k, v in r[0].items() if k != 'msg'} == json.loads(%r)" % json.dumps(strip(g[2])))
            if "cases" in b:
                kit(d)
                with open(d + "/cases.json", "w") as h:
                    for c in b["cases"]: h.write(json.dumps(c) + "\n")
                open(d + "/demo.sh", "w").write(KIT_SH % dict(bin=b["feat"], n=len(b["cases"]), expect=b["expect"]))
            elif "sh" in b:
                open(d + "/demo.sh", "w").write(b["sh"])
                if b.get("kit"): kit(d)
            else:
                open(d + "/demo.sh", "w").write(DEMO_SH % dict(deps=DEPS[b.get("feat", "bp")]))
                open(d + "/demo.rs", "w").write(b["demo"])
            for n, t in b.get("files", {}).items(): open(d + "/" + n, "w").write(t)
            bl = sh("bash /opt/vp/build.sh", cwd=R)
            missing = tests_ok() if bl.returncode == 0 else ["BUILD"]
            bad = sh("bash %s/demo.sh" % d, cwd=R)
            chk = sh("python3 check.py %s quick" % b["prop"], cwd=V)
            caught = chk.returncode == 1 and "VIOLATION property=%s " % b["prop"] in chk.stdout
        finally:
            restore()
        good = sh("bash %s/demo.sh" % d, cwd=R)
        ok = not missing and bad.returncode != 0 and good.returncode == 0
        print("%-28s %s build=%d tests_lost=%s demo_bad=%d demo_good=%d check=%d %s" %
              (b["id"], "VALID " if ok else "INVALID", bl.returncode, missing[:3], bad.returncode, good.returncode, chk.returncode, "CAUGHT" if caught else "MISSED"), flush=True)
        if not ok:
            print(bad.stdout[-600:], good.stdout[-600:])
        if not caught: print(chk.stdout[-800:])
    sh("bash /opt/vp/build.sh", cwd=R)
main()

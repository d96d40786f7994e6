"""Conformance suites for the merkle crate."""
from core import *
from bp import short

THOROUGH = TIER == "thorough"
STABLE = dict(RUSTUP_TOOLCHAIN="stable", RUSTFLAGS="--cap-lints warn --cfg mina_verif")
_bin = None
def mer():
    global _bin
    if _bin is None:
        _bin = cargo_build("merkle", ["merkle"], extra_env=STABLE)[0]
    return _bin

def mnote(rep, kinds, kind, what, case, res, want=None):
    if kind in kinds:
        rep.violation(kind, what, dict(harness="merkle", case=case, observed=res, expected=want))

def cache_model(rep, kinds):
    r = tlc("MerkleCache", {"MaxLeaves": 33 if THOROUGH else 17, "MaxBatch": 9 if THOROUGH else 6})
    if not r["ok"]:
        raise SpecBroken("MerkleCache violates %s" % r["invariant"])
    rep.spec("MerkleCache", r)

def hashes_of(mg):
    return ["sym", "kimchi", "legacy"] if mg == "total" else ["sym"]

def check_history(rep, kinds, o, x):
    """o: case with the prescribed answers; x: what the code answered."""
    head = "%s tree (merger %s, %s): %s" % ("variable height" if o["mode"] == 99 else "height %d" % o["mode"], o["mg"], o["hash"],
                                          [q["op"] + str(q.get("k", q.get("i", ""))) for q in o["ops"]])
    if not x.get("ok"):
        return mnote(rep, kinds, "root", head + " fails: " + short(x), o, x)
    f = o["final"]
    steps = list(zip(o["ops"], o["ans"], x["ans"])) + [(dict(op="root"), dict(root=f["root"]), x["root"])]
    steps += [(dict(op="proof", i=i), w, g) for i, (w, g) in enumerate(zip(f["proofs"], x["proofs"]))]
    for n, (op, want, got) in enumerate(steps):
        if op["op"] == "root":
            good = "panic" in got or got["root"] == "" if want["root"] == "refuse" else got == want
            kind = "root"
        elif op["op"] == "add":
            good, kind = got == want, "root"
        else:
            good = got == want if "none" in want else got == dict(want, verified=True, nh=len(want["peers"]))
            kind = "proof"
        if not good:
            mnote(rep, kinds, kind, "%s, then %s: specification %s, code %s" % (head, op, short(want), short(got)), o, x, want)
            return

def suite_history(rep, kinds):
    cache_model(rep, kinds)
    r = rng("merkle")
    cases, t = tlc_export("MC_Merkle", {"MaxOps": 5, "Batches": "{0,1,2,5}"} if THOROUGH else {}, timeout=1500)
    rep.spec("MC_Merkle", t)
    ops = []
    for n, c in enumerate(cases):
        for h in hashes_of(c["mg"]):
            if h != "sym" and n % 4: continue
            o = dict(c, op="history", hash=h)
            if n % 3 == 0: o["cap"] = n % 17
            ops.append(o)
    res = run_cases(mer(), ops, par=6)
    rep.ran("MC_Merkle", len(ops), traces=len(ops))
    for o, x in zip(ops, res):
        check_history(rep, kinds, o, x)
    rep.sample(dict(history=cases[len(cases) // 2]["ops"], root=cases[len(cases) // 2]["final"]["root"]))

def suite_random(rep, kinds):
    """Longer random histories; what was observed is validated by TLC."""
    r = rng("merkle-random")
    ops = []
    for k in range(1200 if THOROUGH else 220):
        mg = r.choice(["opt", "total", "dup"])
        mode = r.choice([99, 99, 5, 6, 7])
        n, seq = 0, []
        cap = 2 ** (mode if mode != 99 else 6)
        for _ in range(r.randint(3, 14)):
            w = r.random()
            if w < 0.5 and n < cap:
                b = min(r.choice([0, 1, 1, 1, 2, 3, 4, 7, 8, 15]), cap - n)
                seq.append(dict(op="add", k=b, v=[r.randint(0, 30) for _ in range(b)]))
                n += b
            elif w < 0.75:
                seq.append(dict(op="root"))
            else:
                seq.append(dict(op="proof", i=r.randrange(n) if n else 0))
        ops.append(dict(op="history", hash="sym", mg=mg, mode=mode, ops=seq, ans=[dict(root="")] * len(seq), final=dict(root="", proofs=[])))
    res = run_cases(mer(), ops, par=6)
    rep.ran("random histories", len(ops))
    recs, back = [], []
    for o, x in zip(ops, res):
        if not x.get("ok") or any("panic" in a for a in x["ans"]):
            bad = next((i for i, a in enumerate(x.get("ans", [])) if "panic" in a), 0)
            kind = "proof" if x.get("ok") and o["ops"][bad]["op"] == "proof" else "root"
            mnote(rep, kinds, kind, "history %s fails: %s" % (short(o["ops"]), short(x)), o, x)
            continue
        recs.append(dict(mg=o["mg"], mode=o["mode"], ops=o["ops"], ans=x["ans"]))
        back.append((o, x))
    bad, t = tlc_trace("Trace_Merkle", recs, timeout=1200)
    rep.spec("Trace_Merkle", t)
    rep.ran("Trace_Merkle", 0, traces=len(recs))
    for k, out in bad:
        o, x = back[k]
        m = re.findall(r"step = (\d+)", out)
        j = int(m[-1]) if m else 0
        kind = "proof" if j and o["ops"][j - 1]["op"] == "proof" else "root"
        mnote(rep, kinds, kind, "history (merger %s, mode %s) %s: TLC rejects the answer of step %d, %s" % (o["mg"], o["mode"], short(o["ops"]), j, short(x["ans"][j - 1])), o, x, out[-800:])

def suite_proofs(rep, kinds):
    cases, t = tlc_export("MC_MerkleProof", {"MaxLeaves": 9, "Modes": "{99,1,3,4,5}"} if THOROUGH else {}, timeout=1500)
    rep.spec("MC_MerkleProof", t)
    ops = []
    for c in cases:
        for h in hashes_of(c["mg"]):
            ops.append(dict(c, op="proof", hash=h))
    res = run_cases(mer(), ops, par=6)
    rep.ran("MC_MerkleProof", len(ops), traces=len(ops))
    for o, x in zip(ops, res):
        # a hash the merger cannot give is a failure as well
        want = "!" if o["eval"] in ("!", "") else o["eval"]
        good = x.get("ok") and x["eval"] == want and x["accept"] == o["accept"]
        if not good and o["hash"] != "sym" and x.get("ok"):
            good = x["accept"] == o["accept"] and (x["eval"] == "!") == (want == "!") and not str(x["accept"]).startswith("panic")
        if not good:
            mnote(rep, kinds, "forged" if o["how"] != "genuine" else "proof",
                  "%s proof (%s, %s) %s for a tree of %d leaves: specification evaluates to %s, accepted: %s; code %s"
                  % (o["how"], o["mg"], o["hash"], short(o["p"]), o["n"], want, o["accept"], short(x)), o, x)
    rep.sample(dict(proof=cases[len(cases) // 2]))

def suite_paths(rep, kinds):
    cases, t = tlc_export("MC_MerklePath", {"MaxLen": 11} if THOROUGH else {})
    rep.spec("MC_MerklePath", t)
    ops, want = [], []
    for c in cases:
        if c["kind"] == "meta":
            l, o = c["level"], c["off"]
            i = 2 ** l - 1 + o if c["from"] == "first" else 2 ** (l + 1) - 2 - o
            ops.append(dict(op="meta", index=str(i), tree=c["tree"]))
            want.append(c)
        else:
            for mg in ("opt", "total", "dup"):
                ops.append(dict(op="path", mg=mg, path=c["path"]))
                want.append(c)
    for h in list(range(0, 40)) + [99, 100, 999, 1000]:
        ops.append(dict(op="prefix", h=h))
        want.append(dict(kind="prefix"))
    res = run_cases(mer(), ops, par=6)
    rep.ran("MC_MerklePath", len(ops), traces=len(ops))
    for o, c, x in zip(ops, want, res):
        if c["kind"] == "meta":
            if not (x.get("ok") and x["depth"] == c["depth"] and x["height"] == c["height"]):
                mnote(rep, kinds, "meta", "node %s of a tree of height %d: depth %d height %d, code %s" % (o["index"], c["tree"], c["depth"], c["height"], short(x)), o, x, c)
        elif c["kind"] == "prefix":
            if not (x.get("ok") and x["tree"] == "CodaMklTree%03d" % o["h"] and x["coinbase"] == "CodaCbMklTree%03d" % o["h"]):
                mnote(rep, kinds, "meta", "prefix of height %d: code %s" % (o["h"], short(x)), o, x)
        else:
            if not c["ok"]:
                good = not x.get("ok") and x.get("err") == "error" and x["json"]
            else:
                if c["kind"] == "long":
                    n = len(c["path"])
                    idx = 2 ** n - 1 if c["side"] == "l" else 2 ** (n + 1) - 2
                    peers = [2 ** (n - k) if c["side"] == "l" else 2 ** (n + 1 - k) - 3 for k in range(n)]
                else:
                    idx, peers = c["index"], c["peers"]
                good = x.get("ok") and x["json"] and x["index"] == str(idx) and x["peers"] == [str(p) for p in peers] and x["eval"] == c["eval"][o["mg"]]
            if not good:
                mnote(rep, kinds, "path", "Merkle path %s: specification %s, code %s" % ("".join(o["path"]), short({k: c[k] for k in c if k != "eval"}), short(x)), o, x, c)
    rep.sample(dict(path=[c for c in cases if c["kind"] == "path"][-1]))

"""Conformance suites for the consensus, base, crypto and proof-systems crates."""
from core import *
from bp import short
from mer import STABLE

THOROUGH = TIER == "thorough"
_bin = None
def chain():
    global _bin
    if _bin is None:
        _bin = cargo_build("chain", ["chain"], extra_env=STABLE)[0]
    return _bin

def note(rep, kinds, kind, what, case, res, want=None):
    if kinds is None or kind in kinds:
        rep.violation(kind, what, dict(harness="chain", case=case, observed=res, expected=want))

def brief(c):
    return "empty chain" if "empty" in c else ",".join("%s=%s" % (k, c[k]) for k in c if k != "id")

def suite_fork(rep, kinds):
    cases, t = tlc_export("MC_Fork", {"MaxList": 4, "Wide": "TRUE"} if THOROUGH else {}, timeout=1500)
    rep.spec("MC_Fork", t)
    ops = []
    for n, c in enumerate(cases):
        ops.append(dict(c, op="fork"))
        if c["group"] == "longer":
            ops.append(dict(c, op="fork", ty="legacy" if n % 2 else "berkeley"))
    res = run_cases(chain(), ops, par=6)
    rep.ran("MC_Fork", len(ops), traces=len(ops))
    for o, x in zip(ops, res):
        head = "tip (%s), candidates %s" % (brief(o["tip"]), " ".join("(%s)" % brief(c) for c in o["cands"]))
        if not x.get("ok"):
            note(rep, kinds, "select", head + ": " + short(x), o, x)
            continue
        all_ = [o["tip"]] + o["cands"]
        err = x["sel"].get("err") if isinstance(x["sel"], dict) else ""
        if err != o["err"] or x["at"] < 0 or all_[x["at"]] != o["want"]:
            note(rep, kinds, "select", "%s: specification selects (%s) error '%s', code selects %s error '%s'"
                 % (head, brief(o["want"]), o["err"], "(%s)" % brief(all_[x["at"]]) if x["at"] >= 0 else "something else", err), o, x, o["want"])
        if o["short"]:
            if x["short"] != o["short"] * 2:
                note(rep, kinds, "range", "%s: specification says short range: %s, code %s" % (head, o["short"], x["short"]), o, x, o["short"])
            want = [d if d != -1 else dict(err="CandidatesMissingSubWindowDensities") for d in o["dens"]]
            if x["dens"] != want:
                note(rep, kinds, "density", "%s: relative minimum window densities: specification %s, code %s" % (head, want, x["dens"]), o, x, want)
    rep.sample(dict(fork=ops[len(ops) // 2]))

def suite_chain(rep, kinds):
    cases, t = tlc_export("MC_Chain", {"MaxPush": 4, "MaxLong": 8} if THOROUGH else {}, timeout=1500)
    rep.spec("MC_Chain", t)
    ops = [dict(c, op="chain", ty=["own", "legacy", "berkeley"][n % 3]) for n, c in enumerate(cases)]
    res = run_cases(chain(), ops, par=6)
    rep.ran("MC_Chain", len(ops), traces=len(ops))
    for o, x in zip(ops, res):
        if not x.get("ok"):
            note(rep, kinds, "build", "pushing %s: %s" % (short(o["log"]), short(x)), o, x)
            continue
        for i, (w, g) in enumerate(zip(o["log"], x["out"])):
            if (g["ok"] is True) != w["ok"] or (not w["ok"] and g["ok"] != dict(err="InvalidHeight")) or g["view"] != w["view"] or not g["agree"]:
                note(rep, kinds, "build", "pushing blocks (height, slot, slots per epoch) %s: after number %d specification: accepted %s, %s; code: accepted %s, %s, derived data agree: %s"
                     % ([(b["len"], *b["at"]) for b in o["log"][:i + 1]], i + 1, w["ok"], w["view"], g["ok"], g["view"], g["agree"]), o, x, w)
                break

P = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
def field(h):
    n = int.from_bytes(bytes.fromhex(h), "little")
    return n - P if n > P // 2 else n
def ro(x):
    """an input as the harness reports it, in terms of the specification"""
    return dict(fields=[field(f) for f in x["fields"]], bits=x["bits"])
def diff(a, b):
    if len(a) != len(b):
        return "length %d / %d" % (len(a), len(b))
    return next(("position %d: %s / %s" % (i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y), None)

def suite_signed(rep, kinds):
    cases, t = tlc_export("MC_Signed", {"Rich": "TRUE"} if THOROUGH else {}, timeout=1500, workers=1)
    rep.spec("MC_Signed", t)
    ops = [dict(c, op=c["kind"]) for c in cases]
    res = run_cases(chain(), ops, par=6)
    rep.ran("MC_Signed", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        k = c["kind"]
        if not x.get("ok"):
            note(rep, kinds, k, "%s: %s" % (k, short(x)), o, x)
        elif k == "signed":
            got = ro(x["input"])
            for f in ("fields", "bits"):
                d = diff(c["want"][f], got[f])
                if d:
                    note(rep, kinds, "input", "signed input of %s, %s: specification/code %s" % (short(c["payload"]), f, d), o, x, c["want"])
            if x["domains"] != c["domains"]:
                note(rep, kinds, "input", "signature domains: %s" % x["domains"], o, x, c["domains"])
            if not x["faithful"]:
                note(rep, kinds, "verify", "signing changes the payload or signer", o, x)
            if x["verify"] != c["verify"]:
                note(rep, kinds, "verify", "verification of %s: specification %s, code %s" % (short(c["payload"]), c["verify"], x["verify"]), o, x, c["verify"])
        elif k == "block":
            n = [len(c["two"]), None if c["one"] == ["none"] else len(c["one"])]
            if x["verify"] != c["verify"] or x["n"] != n:
                note(rep, kinds, "block", "block of commands %s and %s: specification %s, code %s" % (c["two"], c["one"], c["verify"], x["verify"]), o, x, c["verify"])
        elif k == "built":
            if x["same"] != [True, True]:
                note(rep, kinds, "built", "transfer with options %s: code %s" % (sorted(c["opts"]), x["got"][:300]), o, x, c["want"])
        elif k == "memo":
            if x["memo"] != c["want"] or (c["want"] and x["text"] != c["text"]):
                note(rep, kinds, "memo", "memo of %d bytes of text: code %s" % (len(c["text"]), x["memo"]), o, x, c["want"])
        elif not x["same"]:
            note(rep, kinds, "memo", "text of the memo %s: %s" % (c["memo"], x["text"]), o, x, c["want"])
    rep.sample(dict(ops[0], want=None))

FP1 = 12935064460869035604753254773225484359407575580289870070671311469994328713165
FP2 = 15836741414052211301983886193856353162526040956490609761139212467629447291325
def le(n):
    return (n % P).to_bytes(32, "little")
def suite_input(rep, kinds):
    import hashlib
    cases, t = tlc_export("MC_StateInput", timeout=900, workers=1)
    rep.spec("MC_StateInput", t)
    more, t = tlc_export("MC_StateInput", {"MaxDev": 60, "Sampled": "TRUE"}, timeout=1500, workers=1,
                         simulate=["-simulate", "num=%d" % (200 if THOROUGH else 12), "-depth", "60", "-seed", str(SEED)])
    rep.spec("MC_StateInput (random)", t)
    cases += more
    zk = [FP1] * 5 + [FP2] + [0] * 9
    ops = [dict(op="stateinput", net=c["net"], s=c["s"], uri=[le(1).hex()], zkapp=[le(x).hex() for x in zk]) for c in cases]
    res = run_cases(chain(), ops, par=6)
    rep.ran("MC_StateInput", len(ops), traces=len(ops))
    seen = {}
    for c, o, x in zip(cases, ops, res):
        s = c["s"]
        head = "%s %s" % (c["net"], "account" if c["net"] == "account" else "state")
        if not x.get("ok"):
            note(rep, kinds, "hash", head + ": " + short(x), o, x)
            continue
        sub = lambda b: b
        if c["net"] != "account":
            d = hashlib.sha256(le(s["staged"])[::-1] + bytes(s["aux"]) + bytes(s["pc_aux"])).digest()
            bits = [d[i // 8] >> (i % 8) & 1 for i in range(256)]
            sub = lambda b: bits[b - 100] if b >= 100 else b
        def elem(v):
            return x[v] if isinstance(v, str) else (bytes(v) + bytes(32 - len(v))).hex() if isinstance(v, list) else le(v).hex()
        want = dict(fields=[elem(v) for v in c["input"]["fields"]] + [le(int("".join(str(sub(b)) for b in ch), 2)).hex() for ch in c["input"]["chunks"]],
                    bits=[sub(b) for b in c["input"]["bits"]])
        what = "account" if c["net"] == "account" else "body"
        for part in ("fields", "bits"):
            df = diff(want[part], x["input"][part])
            if df:
                note(rep, kinds, "hash", "%s: %s of what is hashed of the %s, specification / code: %s" % (head, part, what, df), o, x, want)
                break
        else:
            if x["hash"] != x["oracle"]:
                note(rep, kinds, "hash", "%s: hashed under another domain or hash function than it should be" % head, o, x)
            elif c["net"] != "account":
                w = dict(fields=[le(s["previous"]).hex(), x["body_oracle"]], bits=[])
                if x["state"] != w:
                    note(rep, kinds, "hash", "%s: hashed of the state is %s, specification has %s" % (head, short(x["state"]), short(w)), o, x, w)
                elif x["hash"] != x["bytes"] or x["hash"] != x["trait"]:
                    note(rep, kinds, "hash", "%s: its hash is %s, %s or %s, depending on how it is asked for" % (head, x["hash"], x["bytes"], x["trait"]), o, x)
    rep.sample(dict(stateinput=dict(net=ops[0]["net"])))

def suite_pack(rep, kinds):
    cases, t = tlc_export("MC_Pack", {"MaxItems": 3} if THOROUGH else {}, timeout=1500, workers=1)
    rep.spec("MC_Pack", t)
    more, t = tlc_export("MC_Pack", {"MaxItems": 14, "Sampled": "TRUE"}, timeout=900, workers=1,
                         simulate=["-simulate", "num=%d" % (1000 if THOROUGH else 100), "-depth", "15", "-seed", str(SEED)])
    rep.spec("MC_Pack (random)", t)
    cases += more
    ops = [dict(op="pack", items=c["items"]) for c in cases]
    res = run_cases(chain(), ops, par=6)
    rep.ran("MC_Pack", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        head = "chunked input %s" % short([(i["t"], len(i["v"]) if isinstance(i["v"], list) else i["v"]) for i in c["items"]])
        want = [le(v).hex() for v in c["fields"]] + [le(int("".join(map(str, ch)), 2)).hex() for ch in c["chunks"]]
        if not x.get("ok"):
            note(rep, kinds, "hash", head + ": " + short(x), o, x, want)
        elif x["out"] != want:
            note(rep, kinds, "hash", "%s: packed into %s, specification has %s" % (head, short(x["out"]), short(want)), o, x, want)

"""Conformance suites for protocol/bin-prot.  Every suite takes a Report and the set of violation
kinds that belong to the property being decided."""
import json
from core import *
import gen

_bin = None
def bp():
    global _bin
    if _bin is None:
        _bin = cargo_build("bp", ["bp"])[0]
    return _bin

THOROUGH = TIER == "thorough"
DEAD = ("PANIC", "CRASH", "HANG")

def note(rep, kinds, kind, what, case, res, want=None):
    if kind in kinds:
        rep.violation(kind, what, dict(harness="bp", case=case, observed=res, expected=want))

def short(x):
    s = json.dumps(x, separators=(",", ":"))
    return s if len(s) < 240 else s[:240] + "..."

def cmp_read(c, r):
    """Differences between what the specification answered (c) and what the code did (r)."""
    if r["err"] in DEAD:
        return ["panic"]
    st = c["st"]
    if st == "any":
        return []
    if st == "ok":
        if not r["ok"]:
            return ["accept"]
        d = []
        if r["toks"] != c["toks"]: d.append("value")
        if r["n"] != c["n"]: d.append("count")
        if "strict" in c and r["strict"] != c["strict"]: d.append("strict")
        if r.get("fr") is False: d.append("entry")
        return d
    if r["ok"]:
        return ["reject"]
    d = []
    if st != "reject" and r["err"] != st: d.append("class")
    if r.get("strict") == "ok" or r.get("strict") == "DIFFERENT": d.append("strict")
    if r.get("fr") is False: d.append("entry")
    return d

# --------------------------------------------------------------------------- typed reader
_read_cases = None
def read_cases():
    global _read_cases
    if _read_cases is None:
        k = {"MaxStr": 6, "MaxSeq": 6} if THOROUGH else {"MaxStr": 4, "MaxSeq": 5}
        _read_cases = tlc_export("MC_Read", k)
    return _read_cases

def suite_read_exhaustive(rep, kinds, only=None):
    cases, r = read_cases()
    rep.spec("MC_Read", r)
    if only:
        cases = [c for c in cases if only(c)]
    ops = [dict(op="dec", ty=c["ty"], **{"in": c["in"]}) for c in cases]
    res = run_cases(bp(), ops)
    rep.ran("MC_Read", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        for d in cmp_read(c, x):
            note(rep, kinds, d, "decoding %s as %s: specification says %s (n=%s), code says %s"
                 % (c["in"], short(c["ty"]), c["st"], c["n"], short({k: x.get(k) for k in ("ok", "err", "n", "strict", "toks")})), o, x, c)
    for i in (len(cases) // 3, len(cases) // 2):
        if cases:
            rep.sample(dict(spec_behaviour=cases[i], code=res[i]))

def random_reads(r, n, sched=False, depth=3):
    """Random typed decodes: encodings of random values, mutated."""
    enc = []
    for _ in range(n):
        ty = gen.rtype(r, depth)
        enc.append(dict(op="enc", ty=ty, toks=gen.rvalue(r, ty, [])))
    out = run_cases(bp(), enc)
    decs = []
    for e, o in zip(enc, out):
        b = o["out"]
        if len(b) > 700:
            b = b[:700]
        variants = [b, gen.mutate(r, b), b + [r.randint(0, 255)], b[:r.randint(0, len(b))]]
        for v in variants if not sched else variants[:2]:
            decs.append(dict(op="dec", ty=e["ty"], **{"in": v}))
    return decs

def trace_check(rep, kinds, module, label, ops, recs, kind_of, selftest=True):
    """Let TLC validate recorded executions."""
    bad, r = tlc_trace(module, recs)
    rep.spec(module + "/" + label, r)
    rep.ran(module + "/" + label, len(recs), traces=len(recs))
    for k, out in bad:
        kind = kind_of(recs[k])
        ex = re.findall(r"(?:^|\n)(?:/\\ )?(st|expected|toks|pos) = (.{0,300})", out)
        note(rep, kinds, kind, "recorded execution is not a behaviour of %s: %s" % (module, short(recs[k])), ops[k], recs[k],
             dict(tlc=ex[-4:]))
    if selftest and not bad:
        corrupted_is_rejected(rep, module, recs)

def corrupted_is_rejected(rep, module, recs):
    """Binding self test: falsify one recorded field; TLC must reject."""
    for i, x in enumerate(recs):
        if x.get("ok"):
            y = dict(x)
            if "out" in y and y.get("out"):
                y["out"] = [(y["out"][0] + 1) % 256] + y["out"][1:]
            elif y.get("n") is not None and "toks" in y:
                y["n"] = y["n"] + 1
            else:
                continue
            b, _ = tlc_trace(module, [y])
            if not b:
                raise ToolError("a falsified trace was accepted by " + module)
            rep.parts.setdefault(module + "/selftest", {})["falsified_rejected"] = 1
            return
    raise ToolError("no record to falsify for " + module)

def kind_read(x):
    if x["err"] in DEAD: return "panic"
    return "trace"

def rec_read(o, x):
    return dict(ty=o["ty"], **{"in": x["got"] if x.get("faulted") else o["in"]}, ok=x["ok"], err=x["err"], toks=x["toks"],
                n=x["n"], fr=x.get("fr", True), strict=x.get("strict", ""), faulted=x.get("faulted", False))

def suite_read_random(rep, kinds, n=None):
    r = rng("read", rep.prop)
    n = n or (2500 if THOROUGH else 350)
    ops = random_reads(r, n)
    res = run_cases(bp(), ops)
    recs = [rec_read(o, x) for o, x in zip(ops, res)]
    trace_check(rep, kinds, "Trace_Read", "random", ops, recs, kind_read)
    # several values read one after the other through one Deserializer
    seqs, want = [], []
    for _ in range(n // 4):
        tys = [gen.rtype(r, 1) for _ in range(r.randint(2, 4))]
        toks = [gen.rvalue(r, t, []) for t in tys]
        seqs.append((tys, toks))
    enc = run_cases(bp(), [dict(op="encseq", tys=t, vals=v) for t, v in seqs])
    ops2 = [dict(op="decseq", tys=t, **{"in": (e["out"] if r.random() < 0.6 else gen.mutate(r, e["out"]))[:700]}) for (t, _), e in zip(seqs, enc)]
    res2 = run_cases(bp(), ops2)
    recs2 = [rec_read(dict(o, ty=gen.T("tuple", o["tys"])), dict(x, fr=True, strict="")) for o, x in zip(ops2, res2)]
    for q in recs2:
        q["faulted"] = False
        q["skipstrict"] = True
    bad, t = tlc_trace("Trace_Stream", recs2)
    rep.spec("Trace_Stream", t)
    rep.ran("Trace_Stream", len(recs2), traces=len(recs2))
    for k, _ in bad:
        note(rep, kinds, kind_read(recs2[k]), "values read in sequence differ from the specification: " + short(recs2[k]), ops2[k], recs2[k])

def suite_hostile(rep, kinds):
    """Inputs that claim enormous lengths or nest deeply; memory is limited to 1 GB."""
    T, ops = gen.T, []
    big = [[252] + [255] * 8, [252] + [255] * 7 + [127], [252, 0, 0, 0, 0, 0, 0, 0, 1], [253, 255, 255, 255, 255],
           [253, 255, 255, 255, 127], [253, 0, 0, 0, 64], [252, 0, 0, 0, 0, 1, 0, 0, 0], [254, 255, 255]]
    elems = [T("bool"), T("str"), T("i64"), T("f64"), T("seq", [T("u8")]), T("tuple", [T("u8"), T("u8")]),
             T("enum", [], [{"s": "unit", "n": [65], "a": []}])]
    for p in big:
        for tail in ([], [1], [0, 0, 0], [65] * 40):
            ops.append(dict(op="dec", ty=T("str"), **{"in": p + tail}))
            for e in elems:
                ops.append(dict(op="dec", ty=T("seq", [e]), **{"in": p + tail}))
                ops.append(dict(op="dec", ty=T("opt", [T("seq", [T("seq", [e])])]), **{"in": [1, 1] + p + tail}))
    r = rng("hostile", rep.prop)
    for _ in range(1500 if THOROUGH else 300):
        ops.append(dict(op="dec", ty=gen.rtype(r, 3), **{"in": [r.choice([0, 1, 2, 127, 252, 253, 254, 255, r.randint(0, 255)]) for _ in range(r.randint(0, 40))]}))
    res = run_cases(bp(), ops, mem_gb=2)
    recs = [rec_read(o, x) for o, x in zip(ops, res)]
    trace_check(rep, kinds, "Trace_Read", "hostile", ops, recs, kind_read, selftest=False)

def suite_strict(rep, kinds):
    """from_reader_strict on complete values followed by 0..n further bytes, delivered in every way;
    the specification's answer: accepted iff nothing follows."""
    r = rng("strict", rep.prop)
    T = gen.T
    tys = [T("unit"), T("bool"), T("str"), T("i64"), T("f64"), T("opt", [T("str")]), T("seq", [T("u16")]), T("struct", []),
           T("tuple", [T("bool"), T("i32")])] + [gen.rtype(r, 3) for _ in range(150 if THOROUGH else 40)]
    vals = [(t, gen.rvalue(r, t, [])) for t in tys]
    # values that end around the read buffer's size and other powers of two, up to a few MiB
    for n in [8180, 8189, 8190, 8191, 8192, 8193, 16383, 16384] + [(1 << k) + j for k in (15, 16, 17, 20, 22) for j in ((-5, -3, 0) if k < 20 else (0,))]:
        vals.append((T("str"), [gen.tok("str", [97] * n)]))
    enc = run_cases(bp(), [dict(op="enc", ty=t, toks=v) for t, v in vals])
    ops = []
    for (t, _), e in zip(vals, enc):
        b = e["out"]
        for extra in ([], [0], [r.randint(0, 255)], [0] * 7, [r.randint(0, 255) for _ in range(r.randint(2, 40))]):
            for s in ([], [1], [max(1, len(b))], [max(1, len(b)), -1, 1], [8192], [3, -1]):
                if len(b) > 20000 and (s in ([1], [3, -1]) or len(extra) > 1): continue
                ops.append(dict(op="dec", ty=t, rs=s, **{"in": b + extra}))
        ops.append(dict(op="dec", ty=t, **{"in": b + [0] * 9000}))
        ops.append(dict(op="dec", ty=t, **{"in": b[:-1]}))
    small = [o for o in ops if len(o["in"]) <= 700]
    res = run_cases(bp(), ops)
    by = {id(o): x for o, x in zip(ops, res)}
    trace_check(rep, kinds, "Trace_Read", "strict", small, [rec_read(o, by[id(o)]) for o in small], lambda x: "strict")
    big = [o for o in ops if len(o["in"]) > 700]
    rep.ran("strict-large", len(big))
    n = {json.dumps(t) + str(len(e["out"])): len(e["out"]) for (t, _), e in zip(vals, enc)}
    for o in big:
        x = by[id(o)]
        if x["ok"] and x["strict"] != ("ok" if x["n"] == len(o["in"]) else "StreamNotFullyConsumed"):
            note(rep, kinds, "strict", "%d byte input, value ends at %d, delivered as %s: strict decoding says %s" % (len(o["in"]), x["n"], o.get("rs"), x["strict"]),
                 o, x)
        elif not x["ok"] and x["strict"] in ("ok", "DIFFERENT"):
            note(rep, kinds, "strict", "strict decoding accepts what decoding refuses", o, x)

# ------------------------------------------------------------------------------ writer
_write_cases = None
def write_cases():
    global _write_cases
    if _write_cases is None:
        _write_cases = tlc_export("MC_Write", {"MaxSeq": 3, "Tier": '"thorough"'} if THOROUGH else {})
    return _write_cases

def suite_write_exhaustive(rep, kinds, only=None):
    cases, r = write_cases()
    rep.spec("MC_Write", r)
    if only:
        cases = [c for c in cases if only(c)]
    ops = [dict(op="enc", ty=c["ty"], toks=c["toks"]) for c in cases]
    res = run_cases(bp(), ops)
    rep.ran("MC_Write", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        if x["err"] in DEAD:
            note(rep, kinds, "bytes", "encoding %s as %s: %s" % (short(c["toks"]), short(c["ty"]), x), o, x, c)
        elif not x["ok"] or x["out"] != c["out"]:
            note(rep, kinds, "bytes", "encoding %s as %s: specification %s, code %s" % (short(c["toks"]), short(c["ty"]), short(c["out"]), short(x)), o, x, c)
    if cases:
        rep.sample(dict(spec_behaviour=cases[len(cases) // 2], code=res[len(cases) // 2]))
    return cases, res

def suite_roundtrip(rep, kinds):
    """What the code writes for a specified value, the code reads back as that value."""
    cases, r = write_cases()
    rep.spec("MC_Write", r)
    ops = [dict(op="enc", ty=c["ty"], toks=c["toks"]) for c in cases]
    rr = rng("roundtrip", rep.prop)
    for _ in range(6000 if THOROUGH else 800):
        ty = gen.rtype(rr, 4)
        ops.append(dict(op="enc", ty=ty, toks=gen.rvalue(rr, ty, [])))
    res = run_cases(bp(), ops)
    back = [dict(op="dec", ty=o["ty"], **{"in": x["out"]}) for o, x in zip(ops, res)]
    bres = run_cases(bp(), back)
    rep.ran("roundtrip", 2 * len(ops), traces=len(cases))
    for o, x, y in zip(ops, res, bres):
        if not x["ok"]:
            note(rep, kinds, "roundtrip", "value %s of type %s cannot be encoded: %s" % (short(o["toks"]), short(o["ty"]), x["err"]), o, x)
        elif not (y["ok"] and y["toks"] == o["toks"] and y["n"] == len(x["out"]) and y["strict"] == "ok" and y["fr"]):
            note(rep, kinds, "roundtrip", "value %s of type %s does not survive a round trip: %s" % (short(o["toks"]), short(o["ty"]), short(y)), o, dict(enc=x, dec=y))
    # bounded exhaustive reading direction: whatever is accepted re-encodes to something that decodes to the same value
    rc, r2 = read_cases()
    rep.spec("MC_Read", r2)
    acc = [c for c in rc if c["st"] == "ok"]
    ops = [dict(op="enc", ty=c["ty"], toks=c["toks"]) for c in acc]
    res = run_cases(bp(), ops)
    back = run_cases(bp(), [dict(op="dec", ty=o["ty"], **{"in": x["out"]}) for o, x in zip(ops, res)])
    rep.ran("reencode", 2 * len(ops), traces=len(acc))
    for c, o, x, y in zip(acc, ops, res, back):
        if not (x["ok"] and y["ok"] and y["toks"] == c["toks"] and len(x["out"]) <= max(c["n"], 1)):
            note(rep, kinds, "roundtrip", "re-encoding of %s: %s -> %s" % (short(c), short(x), short(y)), o, dict(enc=x, dec=y), c)

def rec_write(o, x):
    return dict(toks=o["toks"], ok=x["ok"], err=x["err"], out=x["out"], hard=x.get("hard", False))

def suite_write_random(rep, kinds, n=None):
    r = rng("write", rep.prop)
    ops = []
    for _ in range(n or (6000 if THOROUGH else 900)):
        ty = gen.rtype(r, 4)
        ops.append(dict(op="enc", ty=ty, toks=gen.rvalue(r, ty, [])))
    for ln in (65534, 65535, 65536) if not THOROUGH else (32767, 32768, 65534, 65535, 65536, 70000):
        ops.append(dict(op="enc", ty=gen.T("str"), toks=[gen.tok("str", [97] * ln)]))
    res = run_cases(bp(), ops)
    recs = [rec_write(o, x) for o, x in zip(ops, res)]
    trace_check(rep, kinds, "Trace_Write", "random", ops, recs, lambda x: "bytes")
    # several values through one Serializer
    ops2 = []
    for _ in range(60):
        tys = [gen.rtype(r, 2) for _ in range(3)]
        ops2.append(dict(op="encseq", tys=tys, vals=[gen.rvalue(r, t, []) for t in tys]))
    res2 = run_cases(bp(), ops2)
    recs2 = [dict(toks=sum(o["vals"], []), ok=x["ok"], err=x["err"], out=x["out"], hard=False) for o, x in zip(ops2, res2)]
    trace_check(rep, kinds, "Trace_Write", "sequence", ops2, recs2, lambda x: "bytes", selftest=False)

# -------------------------------------------------------------------------- primitives
_prim = None
def prim_cases():
    global _prim
    if _prim is None:
        _prim = tlc_export("MC_Prim")
    return _prim

def suite_prim(rep, kinds, which=("rp", "wp"), only=None):
    cases, r = prim_cases()
    rep.spec("MC_Prim", r)
    cases = [c for c in cases if c["op"] in which and (only is None or only(c))]
    ops = [dict(op="wp", f=c["f"], x=c["x"]) if c["op"] == "wp" else dict(op="rp", f=c["f"], **{"in": c["in"]}) for c in cases]
    res = run_cases(bp(), ops)
    rep.ran("MC_Prim", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        if c["op"] == "wp":
            if x["err"] in DEAD or not x["ok"] or x["out"] != c["out"]:
                note(rep, kinds, "bytes", "writer %s of %s: specification %s, code %s" % (c["f"], c["x"], c["out"], short(x)), o, x, c)
            elif x["ret"] != len(c["out"]):
                note(rep, kinds, "ret", "writer %s of %s wrote %d bytes but returned %s" % (c["f"], c["x"], len(c["out"]), x["ret"]), o, x, c)
        else:
            if x["err"] in DEAD:
                d = "panic"
            elif c["st"] == "any":
                continue
            elif c["st"] == "ok":
                if x["ok"] and x["val"] == c["val"] and x["n"] == c["n"]:
                    continue
                d = "prim"
            elif not x["ok"] and x["err"] == c["st"]:
                continue
            else:
                d = "prim"
            note(rep, kinds, d, "reader %s of %s: specification %s %s, code %s" % (c["f"], c["in"], c["st"], c["val"], short(x)), o, x, c)
    if cases:
        rep.sample(dict(spec_behaviour=cases[len(cases) // 2], code=res[len(cases) // 2]))

def suite_big(rep, kinds, forms=("str", "seq", "bools", "options")):
    """Payloads of lengths only a formula can describe: the specification gives the bytes of every length, and what
    follows them is the elements one after the other."""
    cases, r = prim_cases()
    rep.spec("MC_Prim", r)
    wp = {int.from_bytes(bytes(c["x"]), "little"): c["out"] for c in cases if c["op"] == "wp" and c["f"] == "nat0:u64"}
    top = 2 ** 24 if THOROUGH else 2 ** 22
    sizes = [n for n in sorted(wp) if 4096 <= n <= top]
    if not THOROUGH:
        sizes = [n for n in sizes if n < 40000 or n in (65535, 65536, 131072, 2 ** 22)]
    ops = [dict(op="big", f=f, n=n, head=wp[n]) for f in forms for n in sizes if f in ("str", "seq", "lstr") or n <= 2 ** 20 or THOROUGH]
    res = run_cases(bp(), ops)
    rep.ran("large", len(ops), traces=len(ops))
    for o, x in zip(ops, res):
        if x["err"] in DEAD or not x["ok"]:
            note(rep, kinds, "panic" if x["err"] in DEAD else "big", "%d elements as %s: %s" % (o["n"], o["f"], short(x)), o, x)
        elif x["head"] != o["head"]:
            note(rep, kinds, "big", "%d elements as %s: the length is written as %s, specification %s" % (o["n"], o["f"], x["head"], o["head"]), o, x)
        elif not (x["strict"] and x["lax"] and x["chunked"] and not x["trailing"] and not x["cut"]):
            note(rep, kinds, "big", "%d elements as %s do not survive: %s" % (o["n"], o["f"], short(x)), o, x)
    if ops:
        rep.sample(dict(payload=ops[-1], code=res[-1]))

def suite_big_loose(rep, kinds):
    suite_big(rep, kinds, forms=("lstr", "llist"))

def suite_with(rep, kinds):
    """#[serde(with = "integer"/"nat0")] fields: the bytes written are the format's."""
    cases, r = prim_cases()
    cases = [c for c in cases if c["op"] == "wp" and c["f"] in ("integer:i64", "nat0:u64")]
    ops = [dict(op="with", f=c["f"].split(":")[0], x=c["x"]) for c in cases]
    res = run_cases(bp(), ops)
    rep.ran("with-adapters", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        if not x["ok"] or x["out"] != c["out"] + [1]:
            note(rep, kinds, "bytes", "adapter %s of %s: specification %s, code %s" % (c["f"], c["x"], c["out"] + [1], short(x)), o, x, c)

# ---------------------------------------------------------------------------------- I/O
def suite_io(rep, kinds):
    scripts, r = tlc_export("MC_IO", {"MaxScript": 4, "Total": 6} if THOROUGH else {})
    rep.spec("MC_IO", r)
    rr = rng("io", rep.prop)
    vals = []
    T = gen.T
    fixed = [T("str"), T("f32"), T("f64"), T("i64"), T("u32"), T("seq", [T("u16")]), T("tuple", [T("str"), T("i32")]),
             T("poly", [], [{"s": "newtype", "n": [65], "a": [T("str")]}]), T("struct", [T("f64"), T("f32"), T("bool")]),
             T("enum", [], [{"s": "unit", "n": [65], "a": []}, {"s": "tuple", "n": [66], "a": [T("i64"), T("f32")]}])]
    for ty in fixed + [gen.rtype(rr, 2) for _ in range(200 if THOROUGH else 40)]:
        for _ in range(3):
            vals.append((ty, gen.rvalue(rr, ty, [])))
    enc = run_cases(bp(), [dict(op="enc", ty=t, toks=v) for t, v in vals])
    per = 40 if THOROUGH else 4
    wops, dops = [], []
    for s in scripts:
        for _ in range(per):
            i = rr.randrange(len(vals))
            ty, v = vals[i]
            if s["dir"] == "write":
                wops.append(dict(op="enc", ty=ty, toks=v, ws=s["script"]))
            else:
                b = enc[i]["out"]
                if rr.random() < 0.3:
                    b = gen.mutate(rr, b)
                dops.append(dict(op="dec", ty=ty, rs=s["script"], **{"in": b[:400]}))
    wres = run_cases(bp(), wops)
    trace_check(rep, kinds, "Trace_Write", "io", wops, [rec_write(o, x) for o, x in zip(wops, wres)], lambda x: "io")
    dres = run_cases(bp(), dops)
    trace_check(rep, kinds, "Trace_Read", "io", dops, [rec_read(o, x) for o, x in zip(dops, dres)], lambda x: "io")
    # the result may not depend on how bytes arrive or leave
    plain = run_cases(bp(), [{k: v for k, v in o.items() if k != "rs"} for o in dops])
    for o, a, b in zip(dops, dres, plain):
        if -2 not in o["rs"] and {k: v for k, v in a.items() if k != "detail"} != {k: v for k, v in b.items() if k != "detail"}:
            note(rep, kinds, "io", "decoding depends on how the bytes arrive: %s gives %s, all at once gives %s" % (short(o), short(a), short(b)), o, a, b)
    # loosely typed values, with the environment giving up at every byte in turn
    cases, r = tlc_export("MC_Index", {})
    roots = [json.loads(k) for k in sorted({json.dumps(c["toks"]) for c in cases})]
    lens = [len(x["out"]) for x in run_cases(bp(), [dict(op="venc", toks=t) for t in roots])]
    ops = [dict(op="venc", toks=t, ws=s) for t, n in zip(roots, lens) if n <= 60 for k in range(n) for s in ([1] * k + [0], [1] * k + [-2])]
    if len(ops) > 6000 and not THOROUGH:
        ops = rng("iov", rep.prop).sample(ops, 6000)
    trace_check(rep, kinds, "Trace_Write", "io-values", ops, [rec_write(o, x) for o, x in zip(ops, run_cases(bp(), ops))], lambda x: "io", selftest=False)
    # primitives and large payloads across the internal buffer (8 KiB)
    big = []
    for n in (8190, 8191, 8192, 8193, 16384, 20000):
        for s in ([1000], [1, 8192], [4096, -1], [1]):
            big.append(dict(op="dec", ty=T("tuple", [T("str"), T("i32")]), rs=s, **{"in": [254, n & 255, n >> 8] + [97 + i % 23 for i in range(n)] + [253, 1, 2, 3, 4]}))
    bres = run_cases(bp(), big)
    rep.ran("large", len(big))
    trace_check(rep, kinds, "Trace_Read", "io-large", big, [rec_read(o, x) for o, x in zip(big, bres)], lambda x: "io", selftest=False)
    cases, _ = prim_cases()
    wp = [c for c in cases if c["op"] == "wp" and len(c["out"]) > 1]
    wp = [wp[i] for i in range(0, len(wp), max(1, len(wp) // 400))]
    sc = [s["script"] for s in scripts if s["dir"] == "write"]
    ops, want = [], []
    for i, c in enumerate(wp):
        for j in range(3):
            ops.append(dict(op="wp", f=c["f"], x=c["x"], ws=sc[(i * 7 + j * 31) % len(sc)]))
            want.append(c)
    res = run_cases(bp(), ops)
    rep.ran("primitive-io", len(ops))
    for o, x, c in zip(ops, res, want):
        good = (x["out"] == c["out"][:len(x["out"])] and not x["ok"]) if x["hard"] else (x["ok"] and x["out"] == c["out"] and x["ret"] == len(c["out"]))
        if not good:
            note(rep, kinds, "io", "writer %s of %s under script %s: %s" % (c["f"], c["x"], o["ws"], short(x)), o, x, c)
    rp = [c for c in cases if c["op"] == "rp" and len(c["in"]) > 1]
    rp = [rp[i] for i in range(0, len(rp), max(1, len(rp) // 600))]
    rsc = [s["script"] for s in scripts if s["dir"] == "read" and -2 not in s["script"]]
    ops = [dict(op="rp", f=c["f"], rs=rsc[i % len(rsc)], **{"in": c["in"]}) for i, c in enumerate(rp)]
    res = run_cases(bp(), ops)
    rep.ran("primitive-io", len(ops))
    for o, x, c in zip(ops, res, rp):
        if c["st"] == "any":
            continue
        if not ((x["ok"] and x["val"] == c["val"] and x["n"] == c["n"]) if c["st"] == "ok" else (not x["ok"] and x["err"] == c["st"])):
            note(rep, kinds, "io", "reader %s of %s under script %s: %s" % (c["f"], c["in"], o["rs"], short(x)), o, x, c)

# ------------------------------------------------------------------------------- loose
_loose = None
def loose_cases():
    global _loose
    if _loose is None:
        _loose = tlc_export("MC_Loose", {"MaxStr": 6, "MaxLst": 6} if THOROUGH else {"MaxStr": 4, "MaxLst": 5})
    return _loose

def suite_loose_exhaustive(rep, kinds, only=None):
    cases, r = loose_cases()
    rep.spec("MC_Loose", r)
    if only:
        cases = [c for c in cases if only(c)]
    ops = [dict(op="loose", rule=c["rule"], **{"in": c["in"]}) for c in cases]
    res = run_cases(bp(), ops)
    rep.ran("MC_Loose", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        for d in cmp_read(c, x):
            note(rep, kinds, d, "layout %s on %s: specification %s (n=%s), code %s" % (short(c["rule"]), c["in"], c["st"], c["n"], short({k: x.get(k) for k in ("ok", "err", "n", "toks")})), o, x, c)
        if c["st"] == "ok" and x["ok"] and (x["re"] != c["re"] or not x["reok"]):
            note(rep, kinds, "re", "re-encoding of %s read with %s: specification %s, code %s" % (c["in"], short(c["rule"]), c["re"], x["re"]), o, x, c)
    if cases:
        rep.sample(dict(spec_behaviour=cases[len(cases) // 2], code=res[len(cases) // 2]))

def rec_loose(o, x):
    return dict(rule=o["rule"], **{"in": o["in"]}, ok=x["ok"], err=x["err"], toks=x["toks"], n=x["n"], re=x.get("re", []))

def kind_loose(x):
    return "panic" if x["err"] in DEAD else "trace"

def suite_loose_random(rep, kinds, n=None, scripts=((),)):
    r = rng("loose", rep.prop)
    ops = []
    while len(ops) < (n or (8000 if THOROUGH else 1200)):
        rule = gen.rrule(r, 4)
        b = gen.renc(r, rule, None, 300)
        if len(b) > 600:
            continue
        ops.append(dict(op="loose", rule=rule, **{"in": b}))
        ops.append(dict(op="loose", rule=rule, **{"in": gen.mutate(r, b)}))
    res = run_cases(bp(), ops)
    trace_check(rep, kinds, "Trace_Loose", "random", ops, [rec_loose(o, x) for o, x in zip(ops, res)], kind_loose)
    # independence of arrival
    ops2 = [dict(o, rs=r.choice([[1], [2, -1], [3, 1], [-1, 7]])) for o in ops[:400]]
    res2 = run_cases(bp(), ops2)
    rep.ran("loose-io", len(ops2))
    for o, a, b in zip(ops2, res, res2):
        if (a["ok"], a["err"], a["toks"], a["n"]) != (b["ok"], b["err"], b["toks"], b["n"]):
            note(rep, kinds, "trace", "loose decoding depends on how the bytes arrive: " + short(o), o, b, a)

def suite_loose_hostile(rep, kinds):
    big = [[252] + [255] * 8, [252] + [255] * 7 + [127], [253, 255, 255, 255, 255], [253, 255, 255, 255, 127], [254, 255, 255]]
    ops = []
    for p in big:
        for rule in (["String"], ["List", ["Bool"]], ["List", ["List", ["Bool"]]], ["Tuple", [["List", ["Char"]], ["Bool"]]],
                     ["List", ["Record", [{"field_name": "a", "field_rule": ["String"]}]]], ["Option", ["List", ["Int"]]]):
            for tail in ([], [1], [65] * 30):
                ops.append(dict(op="loose", rule=rule, **{"in": p + tail}))
                ops.append(dict(op="loose", rule=rule, **{"in": [1] + p + tail}))
    for idx in (-1, 3, 255, 256, 300, 100000):
        ops.append(dict(op="loose", rule=["Sum", [{"ctor_name": "a", "index": idx, "ctor_args": []}]], **{"in": [0]}))
    res = run_cases(bp(), ops, mem_gb=2)
    known = [(o, x) for o, x in zip(ops, res) if o["rule"][0] != "Sum"]
    trace_check(rep, kinds, "Trace_Loose", "hostile", [o for o, _ in known], [rec_loose(o, x) for o, x in known], kind_loose, selftest=False)
    for o, x in zip(ops, res):
        if o["rule"][0] == "Sum" and x["err"] in DEAD:
            note(rep, kinds, "panic", "layout with summand index %s: %s" % (o["rule"][1][0]["index"], short(x)), o, x)

def suite_hybrid(rep, kinds):
    cases, r = tlc_export("MC_Hybrid")
    rep.spec("MC_Hybrid", r)
    ops = [dict(op="hybrid", rule=c["rule"], ty=c["ty"], **{"in": c["in"]}) for c in cases]
    res = run_cases(bp(), ops)
    rep.ran("MC_Hybrid", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        if x["err"] in DEAD:
            note(rep, kinds, "panic", "hybrid decoding of %s: %s" % (short(o), short(x)), o, x, c)
        elif x["ok"] != c["ok"] or (c["ok"] and (x["toks"] != c["toks"] or x["n"] != c["n"])):
            note(rep, kinds, "hybrid", "layout driven decoding into %s of %s: specification %s, code %s"
                 % (short(c["ty"]), c["in"], short({k: c[k] for k in ("ok", "n", "toks")}), short({k: x.get(k) for k in ("ok", "err", "n", "toks")})), o, x, c)
    if cases:
        rep.sample(dict(spec_behaviour=cases[len(cases) // 2], code=res[len(cases) // 2]))

def suite_index(rep, kinds):
    cases, r = tlc_export("MC_Index", {"Depth": 3})
    rep.spec("MC_Index", r)
    # positions beyond a byte and a short: element k of the specification's ByNum
    for kind, n in (("list", 300), ("tup", 200), ("list", 66000)):
        head = [gen.tok(kind, gen.le8(n) if kind == "list" else [n])]
        elems = [gen.tok("int", gen.le8(7 * i + 1)) for i in range(n)]
        for wrap in ([], [gen.tok("sum", [3], "one")]):
            for k in (0, 1, 127, 128, 199, 200, 255, 256, 257, 299, 300, 511, 512, 65535, 65536, 65999, 66000, 2 ** 32, 2 ** 32 + 1):
                cases.append(dict(toks=wrap + head + elems, path=[dict(num=True, k=k, s="")], found=k < n, want=elems[k:k + 1], big=True))
    ops = [dict(op="vindex", toks=c["toks"], path=[s["k"] if s["num"] else None if s["k"] < 0 else s["s"] for s in c["path"]]) for c in cases]
    res = run_cases(bp(), ops)
    rep.ran("MC_Index", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        last = c["path"][-1]
        if last["k"] < 0 and not c["found"]:      # inner of None is None, of anything but an option a panic
            good = x["err"] == ("NONE" if last["s"] == "none" else "PANIC")
        else:
            good = x["err"] not in DEAD and x["ok"] == c["found"] and x["toks"] == c["want"] and x.get("same")
        if not good:
            note(rep, kinds, "index", "path %s into %s: specification %s, code %s" % (o["path"], short(c["toks"]), short(c["want"]), short(x)), o, x, c)
    if cases:
        rep.sample(dict(spec_behaviour=cases[len(cases) // 2], code=res[len(cases) // 2]))

def suite_value_write(rep, kinds):
    """Serialization of loosely typed values, including ones no layout produces."""
    cases, r = tlc_export("MC_Index", {"Depth": 3} if THOROUGH else {})
    roots = {}
    for c in cases:
        roots[json.dumps(c["toks"])] = c["toks"]
    ops = [dict(op="venc", toks=t) for t in roots.values()]
    for n in (0, 127, 128, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1):
        ops.append(dict(op="venc", toks=[gen.tok("nat0", gen.le8(n))]))
    for n in (127, 128, 300):
        ops.append(dict(op="venc", toks=[gen.tok("list", gen.le8(n))] + [gen.tok("bool", [i % 2]) for i in range(n)]))
        ops.append(dict(op="venc", toks=[gen.tok("string", [i % 256 for i in range(n)])]))
    r2 = rng("venc", rep.prop)
    ops += [dict(o, ws=r2.choice([[1], [2, -1], [3]])) for o in ops]
    res = run_cases(bp(), ops)
    trace_check(rep, kinds, "Trace_Write", "values", ops, [rec_write(o, x) for o, x in zip(ops, res)], lambda x: "re")

# ------------------------------------------------------------------- polymorphic variants
def suite_poly(rep, kinds):
    cases, r = tlc_export("MC_Poly", {"MaxV": 3} if THOROUGH else {})
    rep.spec("MC_Poly", r)
    ops = [dict(op="dec", ty=c["ty"], **{"in": c["in"]}) for c in cases]
    res = run_cases(bp(), ops)
    rep.ran("MC_Poly/read", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        d = cmp_read(c, x)
        if d:
            note(rep, kinds, "poly", "polyvar %s on %s: specification %s %s, code %s"
                 % ([bytes(v["n"]).decode() for v in c["ty"]["v"]], c["in"], c["st"], short(c["toks"]), short({k: x.get(k) for k in ("ok", "err", "n", "toks")})), o, x, c)
    good = [c for c in cases if c["st"] == "ok"]
    ops = [dict(op="enc", ty=c["ty"], toks=c["toks"]) for c in good]
    res = run_cases(bp(), ops)
    rep.ran("MC_Poly/write", len(ops), traces=len(ops))
    for c, o, x in zip(good, ops, res):
        if not x["ok"] or x["out"] != c["in"][:c["n"]]:
            note(rep, kinds, "poly", "writing %s: specification %s, code %s" % (short(c["toks"]), c["in"][:c["n"]], short(x)), o, x, c)
    labels = {}
    for c in cases:
        for q in c["pool"]:
            if all(b < 128 for b in q["l"]):
                labels[tuple(q["l"])] = q["h"]
    ops = [dict(op="hash", label=list(l)) for l in labels]
    res = run_cases(bp(), ops)
    rep.ran("MC_Poly/hash", len(ops), traces=len(ops))
    for (l, h), o, x in zip(labels.items(), ops, res):
        if not x["ok"] or x["hash"] != h:
            note(rep, kinds, "poly", "hash of label %s: specification %s, code %s" % (bytes(l), h, short(x)), o, x, h)
    rep.sample(dict(spec_behaviour=good[len(good) // 2]))
    # random types with polyvars in them, validated by TLC
    rr = rng("poly", rep.prop)
    ops = []
    while len(ops) < (4000 if THOROUGH else 500):
        ty = gen.rtype(rr, 3)
        if '"poly"' not in json.dumps(ty):
            continue
        e = dict(op="enc", ty=ty, toks=gen.rvalue(rr, ty, []))
        ops.append(e)
    enc = run_cases(bp(), ops)
    trace_check(rep, kinds, "Trace_Write", "poly", ops, [rec_write(o, x) for o, x in zip(ops, enc)], lambda x: "poly")
    decs = []
    for o, x in zip(ops, enc):
        b = x["out"][:600]
        decs += [dict(op="dec", ty=o["ty"], **{"in": b}), dict(op="dec", ty=o["ty"], **{"in": gen.mutate(rr, b)})]
    res = run_cases(bp(), decs)
    trace_check(rep, kinds, "Trace_Read", "poly", decs, [rec_read(o, x) for o, x in zip(decs, res)], lambda x: "poly", selftest=False)

# --------------------------------------------------------------------- layout documents
def jtree(t):
    k = t["t"]
    if k in ("str", "num", "bool"): return t[{"str": "x", "num": "i", "bool": "f"}[k]]
    if k == "null": return None
    if k == "frac": return 1.5
    if k == "arr": return [jtree(x) for x in t["e"]]
    return {a: jtree(b) for a, b in t["o"]}

def suite_layout_json(rep, kinds):
    cases, r = tlc_export("MC_LayoutJson", {"MaxWrap": 2} if THOROUGH else {})
    rep.spec("MC_LayoutJson", r)
    ops = [dict(op="layout", kind=c["kind"], text=json.dumps(jtree(c["doc"]))) for c in cases]
    res = run_cases(bp(), ops)
    rep.ran("MC_LayoutJson", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        if x["err"] in DEAD:
            note(rep, kinds, "json", "parsing %s: %s" % (o["text"], short(x)), o, x)
        elif c["want"] == "any":
            continue
        elif x["ok"] != (c["want"] == "yes"):
            note(rep, kinds, "json", "layout document %s should be %s: %s" % (o["text"], "accepted" if c["want"] == "yes" else "refused", short(x)), o, x, c)
        elif x["ok"] and json.loads(x["image"]) != jtree(c["image"]):
            note(rep, kinds, "json", "layout document %s means %s, code says %s" % (o["text"], json.dumps(jtree(c["image"])), x["image"]), o, x, c)
    yes = [i for i, c in enumerate(cases) if c["want"] == "yes"]
    rep.parts["MC_LayoutJson"]["accepted"] = len(yes)
    rep.sample(dict(document=ops[yes[len(yes) // 2]]["text"], means=res[yes[len(yes) // 2]].get("image")))

# ------------------------------------------------------------------------ real documents
def real_blocks(limit):
    data = os.path.join(REPO, "protocol", "test-fixtures", "src", "data")
    docs = []
    for f in sorted(os.listdir(data)):
        q = os.path.join(data, f)
        if f.endswith(".hex") or f == "block1":
            if os.path.getsize(q) < 2 * limit:
                b = open(q, "rb").read()
                docs.append((f, list(bytes.fromhex(b.decode().strip()) if f.endswith(".hex") else b)))
    return docs

def real_rules(limit, cap):
    """Distinct sub-rules of the layouts shipped in the repository, small enough for TLC."""
    import sys
    sys.setrecursionlimit(100000)
    seen = {}
    def size_of(rule):
        """Collects; returns the size of the rule as text."""
        k = rule[0]
        n = 10
        if k in ("Option", "List"): n += size_of(rule[1])
        elif k in ("Tuple", "Custom", "Self_reference"): n += sum(size_of(x) for x in rule[1])
        elif k == "Record": n += sum(30 + size_of(f["field_rule"]) for f in rule[1])
        elif k == "Sum": n += sum(30 + sum(size_of(x) for x in f["ctor_args"]) for f in rule[1])
        elif k == "Polyvar":
            for v in rule[1]:
                n += 30 + (sum(size_of(x) for x in v[1]["polyvar_args"]) if v[0] == "Tagged" else size_of(v[1]))
        elif k == "Reference" and rule[1][0] == "Resolved": n += 60 + size_of(rule[1][1]["ref_rule"])
        elif k in ("Vec", "Type_abstraction", "Type_closure"): n += size_of(rule[2])
        if 40 < n < limit:
            seen.setdefault(json.dumps(rule), None)
        return n
    for f in ("external_transition", "protocol_state", "snark_work", "verification_key"):
        size_of(json.load(open(os.path.join(REPO, "protocol", "layouts", f + ".json")))["bin_prot_rule"])
    keys = sorted(seen)
    rng("realrules").shuffle(keys)
    return [json.loads(k) for k in keys[:cap]]

def suite_fixtures(rep, kinds):
    """The real thing: blocks of the Mina network with the layouts shipped in the repository are
    accepted, consumed to the last byte and written back identically; cut anywhere they are
    refused, damaged anywhere they do not bring the reader down.  Sub-rules of those layouts are
    executed on generated bytes and validated by TLC."""
    r = rng("fixtures", rep.prop)
    lay = os.path.join(REPO, "protocol", "layouts", "external_transition.json")
    ops, want = [], []
    for f, b in real_blocks(3000000 if THOROUGH else 40000):
        base = dict(op="loose", layout=lay, quiet=True)
        ops.append(dict(base, **{"in": b})); want.append(("whole", f, len(b)))
        if len(b) > 40000:
            continue
        ops.append(dict(base, **{"in": b + [r.randint(0, 255)]})); want.append(("longer", f, len(b)))
        for _ in range(20 if THOROUGH else 3):
            k = r.randrange(len(b))
            ops.append(dict(base, **{"in": b[:k]})); want.append(("cut", f, k))
            ops.append(dict(base, **{"in": gen.mutate(r, b)})); want.append(("damaged", f, 0))
            ops.append(dict(base, rs=r.choice([[1], [7, -1], [4096, 1]]), **{"in": b})); want.append(("whole", f, len(b)))
    res = run_cases(bp(), ops, mem_gb=12, stall=400)
    rep.ran("real-blocks", len(ops))
    for o, x, (k, f, n) in zip(ops, res, want):
        w = dict(o, **{"in": "%d bytes of %s" % (len(o["in"]), f)})
        if x["err"] in DEAD:
            note(rep, kinds, "panic", "%s block %s: %s" % (k, f, short(x)), w, x)
        elif k in ("whole", "longer") and not (x["ok"] and x["n"] == n and x["same"]):
            note(rep, kinds, "re", "block %s (%s) is not read and written back identically: %s" % (f, k, short(x)), w, x)
        elif k == "cut" and (x["ok"] or x["err"] != "Io"):
            note(rep, kinds, "reject", "block %s cut after %d bytes: %s" % (f, n, short(x)), w, x)
    rules = real_rules(6000, 1500 if THOROUGH else 200)
    ops = []
    for rule in rules:
        for _ in range(2):
            b = gen.renc(r, rule, None, 400)
            ops.append(dict(op="loose", rule=rule, **{"in": b}))
        ops.append(dict(op="loose", rule=rule, **{"in": gen.mutate(r, b)}))
    res = run_cases(bp(), ops)
    trace_check(rep, kinds, "Trace_Loose", "real-layouts", ops, [rec_loose(o, x) for o, x in zip(ops, res)], kind_loose, selftest=False)

"""C41: the parts of a block's proof, as the proof system gets them (spec/ProofParts.tla)."""
from core import *
from chain import chain, note, THOROUGH
from bp import short

MODULUS = dict(pallas=0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001, vesta=0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001)
def number(cl, curve, r):
    m = MODULUS[curve]
    return dict(zero=0, one=1, top=m - 1 - r.randrange(2), low=r.randrange(1, 1 << r.choice([8, 32, 64, 65])), high=r.randrange(1, 64) << r.choice([192, 246, 247, 248]), any=r.randrange(m))[cl]
def suite_parts(rep, kinds):
    cases, t = tlc_export("MC_ProofParts", timeout=600)
    rep.spec("MC_ProofParts", t)
    more, t = tlc_export("MC_ProofParts", {"MaxLen": 12, "Long": "TRUE"}, timeout=600, workers=1,
                         simulate=["-simulate", "num=%d" % (400 if THOROUGH else 20), "-depth", "13", "-seed", str(SEED)])
    rep.spec("MC_ProofParts (random)", t)
    r = rng("parts")
    if len(more) > (40000 if THOROUGH else 3000):
        more = r.sample(more, 40000 if THOROUGH else 3000)
    ops = []
    for c in cases + more:
        vals = {}
        nat = lambda k: number(k, c["curve"], r)
        hx = lambda v: v.to_bytes(32, "little").hex()
        part, want = [], []
        def point(e):
            if e["infinity"]:
                return "infinity", "infinity"
            x, y = nat(e["x"]), nat(e["y"])
            return [hx(x), hx(y)], [str(x), str(y)]
        for e in c["part"]:
            if c["kind"] == "numbers":
                v = nat(e)
                a, b = hx(v), str(v)
            elif c["kind"] == "pairs":
                a, b = zip(*[point(p) for p in e])
                a, b = list(a), list(b)
            else:
                a, b = point(e)
            part.append(a)
            want.append(b)
        # the specification's own words, for the binding
        if len(c["given"]) != len(want) or any((g.get("infinity") is True) != (w == "infinity") for g, w in zip(c["given"], want) if isinstance(g, dict)):
            raise ToolError("binding of MC_ProofParts")
        ops.append((dict(op="parts", kind=c["kind"], curve=c["curve"], part=part), want))
    res = run_cases(chain(), [o for o, _ in ops], par=4)
    rep.ran("MC_ProofParts", len(ops), traces=len(ops))
    for (o, w), x in zip(ops, res):
        if x.get("given") != w:
            note(rep, kinds, "parts", "%s of %s, %s: the proof system gets %s" % (o["kind"], o["curve"], short(w), short(x.get("given", x))), o, x, w)
    rep.sample(dict(parts=ops[len(ops) // 2][0]))

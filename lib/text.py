"""Suites for what is read from and written as text: GraphQL documents, JSON, base58, numbers."""
import hashlib, random
from core import *
from bp import short
from chain import chain, note

THOROUGH = TIER == "thorough"
ALPHA = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58(b):
    n, s = int.from_bytes(b, "big"), ""
    while n:
        n, r = divmod(n, 58)
        s = ALPHA[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s
def check(b):
    return b + hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4]
def unb58(s):
    n = 0
    for c in s:
        n = n * 58 + ALPHA.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return b"\0" * (len(s) - len(s.lstrip("1"))) + b

VERSION = dict(ledger=5, chain=5, coinbase=12, seed=13, aux=14, pcaux=15, state=16, vrf=21)
def payload(kind, data):
    if kind in ("aux", "pcaux"):
        return bytes([VERSION[kind]]) + data
    return bytes([VERSION[kind], 32 if kind == "vrf" else 1]) + data
AUTH = ["None", "Either", "Proof", "Signature", "Both", "Impossible"]
MISSING = object()

class Leaf:
    """the text of a class of a leaf, and the value that must be read from it"""
    def __init__(self, keys):
        self.keys = keys
    def data(self, i, c):
        if c == "zero":
            return bytes(32)
        if c == "max":
            return bytes([255] * 32)
        return hashlib.sha256(b"%d %s" % (i, c.encode())).digest()
    def value(self, k, i, c):
        """(json, field)"""
        if c == "absent":
            return MISSING, None
        if c == "null":
            return None, None
        if c == "number":
            return 7, None
        if c == "object":
            return {"hash": "1"}, None
        if c == "empty":
            return "", None
        if c == "text":
            return "no such thing", None
        if k in ("u32", "u64", "time"):
            top = 2 ** (32 if k == "u32" else 64) - 1
            if c == "over":
                return str(top + 1), None
            if c == "negative":
                return "-1", None
            if c == "fraction":
                return "1.5", None
            v = dict(zero=0, max=top, good=1000 + 7 * i, other=1000000 + 11 * i)[c]
            return str(v), str(v)
        if k in VERSION:
            d = self.data(i, c)
            p = payload(k, d)
            if c == "otherversion":
                p = bytes([p[0] ^ 1]) + p[1:]
            elif c == "short":
                p = p[:-1]
            elif c == "long":
                p = p + b"\0"
            elif c == "inner":
                p = p[:1] + bytes([p[1] + 1]) + p[2:]
            full = check(p)
            if c == "checksum":
                full = full[:-1] + bytes([full[-1] ^ 1])
            return b58(full), d.hex()
        if k in ("addr", "optaddr"):
            # the harness makes as many keys as there are leaves and classes
            a = self.keys[(i * 4 + dict(good=0, other=1, zero=2, max=3).get(c, 0)) % len(self.keys)]
            if c in ("good", "other", "zero", "max"):
                return a, a
            b = unb58(a)
            if c == "short":
                return a[:-1], None
            if c == "checksum":
                return b58(b[:-1] + bytes([b[-1] ^ 1])), None
            return b58(check(bytes([b[0] ^ 1]) + b[1:-4])), None
        if k == "hex":
            d = self.data(i, c)
            s = d.hex()
            return {"short": s[:-2], "long": s + "00"}.get(c, s), s
        if k == "auth":
            if c == "case":
                return "signature", None
            a = AUTH[dict(good=i % 6, other=(i // 6 + 1 + i) % 6, zero=0, max=5)[c]]
            return a, a
        if k == "bool":
            v = dict(good=i % 2 == 0, other=i % 2 == 1, zero=False, max=True)[c]
            return v, v
        raise Exception("kind %s" % k)

def assign(doc, path, v):
    if v is MISSING:
        return
    *up, last = path.split("/")
    for p in up:
        doc = doc.setdefault(p, {})
    doc[last] = v
def cut(doc, path, c):
    v = dict(absent=MISSING, null=None, string="3NK7nrZPxZ1vQRzNBnAfK5coYmdgygEHbRQ1GTT8f3o6b4dFWchL", number=1, array=[])[c]
    if path == "":
        return None if v is MISSING else v
    *up, last = path.split("/")
    d = doc
    for p in up:
        d = d[p]
    if v is MISSING:
        d.pop(last, None)
    else:
        d[last] = v
    return doc
def shuffled(rng, d):
    if not isinstance(d, dict):
        return d
    ks = list(d)
    rng.shuffle(ks)
    return {k: shuffled(rng, d[k]) for k in ks}

def suite_graphql(rep, kinds):
    cases, t = tlc_export("MC_GraphQl", timeout=900, workers=1)
    rep.spec("MC_GraphQl", t)
    more, t = tlc_export("MC_GraphQl", {"MaxDev": 40}, timeout=900, workers=1,
                         simulate=["-simulate", "num=%d" % (12 if THOROUGH else 2), "-depth", "40", "-seed", str(SEED)])
    rep.spec("MC_GraphQl (random)", t)
    cases += more
    if THOROUGH:
        more, t = tlc_export("MC_GraphQl", {"MaxDev": 2}, timeout=1500, workers=1)
        rep.spec("MC_GraphQl (pairs)", t)
        cases += more
    leaves = {c["which"]: c["leaves"] for c in cases if c["mode"] == "leaves"}
    cases = [c for c in cases if c["mode"] != "leaves"]
    rng = random.Random(SEED)
    keys = run_cases(chain(), [dict(op="keys", n=97)])[0]["out"]
    lf = Leaf(keys)
    ops, wants = [], []
    for c in cases:
        doc, want = {}, {}
        for i, (l, cl, f) in enumerate(zip(leaves[c["mode"]], c["doc"], c["fields"] or c["doc"])):
            j, v = lf.value(l["k"], i, cl)
            assign(doc, l["p"], j)
            if f == "default":
                v = dict(bool=False).get(l["k"])
            want[l["d"]] = v
        # what the API says besides
        doc["unknown"] = {"nonce": "1", "hash": None}
        if c["cut"]["n"] != "none":
            doc = cut(doc, c["cut"]["n"], c["cut"]["c"])
        if c["mode"] == "state":
            want.update(spe="7140", windows=[1] + [7] * 10, constants=True, local=True)
        else:
            want.update(timing=c["timing"], zkapp=False)
            if c["timing"] == "untimed":
                want = {k: v for k, v in want.items() if not k.startswith("timing.")}
        ops.append(dict(op="graphql", mode=c["mode"], json=shuffled(rng, doc)))
        wants.append(want if c["ok"] else None)
    res = run_cases(chain(), ops, par=6)
    rep.ran("MC_GraphQl", len(ops), traces=len(ops))
    for c, o, w, x in zip(cases, ops, wants, res):
        odd = ["%s %s" % (l["p"], cl) for l, cl in zip(leaves[c["mode"]], c["doc"]) if cl != "good"]
        if c["cut"]["n"] != "none":
            odd.append("%s %s" % (c["cut"]["n"] or "the whole document", c["cut"]["c"]))
        head = "%s document, %s" % (c["mode"], ", ".join(odd[:6]) or "all well")
        if not x.get("ok"):
            note(rep, kinds, "graphql", head + ": " + short(x), o, x)
            continue
        g = x["out"]
        partly = c["timing"] == "refused or untimed"
        if g is None and partly:
            continue
        if (g is None) != (w is None):
            note(rep, kinds, "graphql", "%s: specification %s, code %s" % (head, "refuses it" if w is None else "accepts it", "accepts it" if w is None else "refuses it"), o, x, w)
        elif g is not None:
            for d, v in w.items():
                if partly and d.startswith("timing."):
                    continue
                if partly and d == "timing":
                    v = "untimed"
                if g.get(d) != v:
                    note(rep, kinds, "graphql", "%s: %s is %s in the document, %s as read" % (head, d, short(v), short(g.get(d))), o, x, w)
                    break
    rep.sample(dict(graphql=ops[0]["json"]))

P = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
def suite_answer(rep, kinds):
    import net
    cases, t = tlc_export("MC_Answer", {"MaxPath": 8} if THOROUGH else {}, timeout=1500, workers=1)
    rep.spec("MC_Answer", t)
    if THOROUGH:
        more, t = tlc_export("MC_Answer", {"MaxEntries": 2, "MaxPath": 2}, timeout=1500, workers=1)
        rep.spec("MC_Answer (two accounts)", t)
        cases += more
    more, t = tlc_export("MC_Answer", {"MaxEntries": 6, "MaxPath": 3}, timeout=900, workers=1,
                         simulate=["-simulate", "num=%d" % (150 if THOROUGH else 15), "-depth", "6", "-seed", str(SEED)])
    rep.spec("MC_Answer (random)", t)
    rng = random.Random(SEED)
    cases += rng.sample(more, min(len(more), 12000 if THOROUGH else 3000))
    # the states come from the specification of documents
    docs, _ = tlc_export("MC_GraphQl", {"MaxDev": 0}, timeout=300, workers=1)
    leaves = next(c["leaves"] for c in docs if c["mode"] == "leaves" and c["which"] == "state")
    keys = run_cases(chain(), [dict(op="keys", n=97)])[0]["out"]
    lf = Leaf(keys)
    def state(kind):
        doc, want = {}, {}
        for i, l in enumerate(leaves):
            j, v = lf.value(l["k"], i, "other" if kind == "other" else "good")
            assign(doc, l["p"], j)
            want[l["d"]] = v
        if kind == "bad":
            doc["consensusState"]["slot"] = "x"
        return dict(stateHash="3NK", protocolState=doc), want
    def leaf(c, n):
        return dict(number=str(500 + n), top=str(P - 1), over=str(P), huge=str(2 ** 256), empty="", negative="-1", hex="0x10").get(c)
    def step(c, n):
        v = dict(left=str(1000 + n), right=str(2000 + n), lefttop=str(P - 1), both="1", none=None, over=str(P), huge=str(2 ** 256 + 5), text="abc", number=1000)[c]
        return dict(left=None if c == "right" else v, right=v if c in ("right", "both") else None), v
    ops, wants = [], []
    for c in cases:
        doc = dict(bestChain=[state(b)[0] for b in c["best"]])
        proofs = []
        for n, e in enumerate(c["entries"]):
            a = keys[n]
            key = dict(address=a, checksum=a[:20] + ("1" if a[20] != "1" else "2") + a[21:], plain="account%d" % n, longaddress=a + "1")[e["key"]]
            steps = [step(s, 10 * n + i) for i, s in enumerate(e["path"])]
            v = dict(merklePath=[s[0] for s in steps])
            if e["leaf"] == "json":
                v["leafHash"] = 500
            elif e["leaf"] != "absent":
                v["leafHash"] = leaf(e["leaf"], n)
            doc[key] = v
            if c["ok"] and c["proofs"][n]["index"] != -1:
                p = c["proofs"][n]
                proofs.append(dict(index=p["index"], peers=p["peers"], leaf=leaf(e["leaf"], n), hashes=[s[1] for s in steps]))
        ops.append(dict(op="answer", json=shuffled(rng, doc)))
        wants.append(dict(state=state(c["best"][0])[1], proofs=proofs) if c["ok"] else None)
    res = run_cases(net.net(), ops, par=6)
    rep.ran("MC_Answer", len(ops), traces=len(ops))
    for c, o, w, x in zip(cases, ops, wants, res):
        head = "answer with best chain %s and accounts %s" % (c["best"], ["%(key)s %(path)s %(leaf)s" % e for e in c["entries"]])
        if not x.get("ok"):
            note(rep, kinds, "answer", head + ": " + short(x), o, x)
            continue
        g = x["out"]
        if (g is None) != (w is None):
            note(rep, kinds, "answer", "%s: specification %s, code %s" % (head, "refuses it" if w is None else "accepts it", "accepts it" if w is None else "refuses it"), o, x, w)
        elif g is not None:
            order = lambda ps: sorted(json.dumps(p, sort_keys=True) for p in ps)
            if order(g["proofs"]) != order(w["proofs"]):
                note(rep, kinds, "answer", "%s: specification has proofs %s, code %s" % (head, short(w["proofs"]), short(g["proofs"])), o, x, w)
            elif any(g["state"].get(k) != v for k, v in w["state"].items()):
                note(rep, kinds, "answer", "%s: not the state of the first block" % head, o, x, w)
    rep.sample(dict(answer=ops[-1]["json"]))

def points(t):
    return "".join(map(chr, t))
NUMERIC = {"amount", "decimal", "u32", "u64", "fp", "field10"}
def value_of(kind, v):
    """the specification's value as the harness reports it"""
    if kind in ("amount", "decimal", "u32", "u64"):
        return "".join(map(str, v)) or "0"
    if kind in ("fp", "field10"):
        return int("".join(map(str, v)) or "0").to_bytes(32, "little").hex()
    if kind == "field16":
        return int("".join("%x" % d for d in v) or "0", 16).to_bytes(32, "little").hex()
    return bytes(v).hex()
def argument(kind, v):
    return ("".join(map(str, v)) or "0") if kind in NUMERIC else v

def suite_textform(rep, kinds):
    cases, t = tlc_export("MC_Text", {"MaxFree": 4, "MaxBytes": 4} if THOROUGH else {}, timeout=1500, workers=1)
    rep.spec("MC_Text", t)
    ops, wants = [], []
    def reads(k, text, w):
        ops.append(dict(op="form", kind=k, text=text))
        wants.append(w)
    def writes(k, v, text):
        ops.append(dict(op="form", kind=k, value=argument(k, v)))
        wants.append(dict(text=None if text == [1114112] else text, v=v))
    for c in cases:
        if "values" in c:
            for k, vs in c["values"].items():
                for v in vs:
                    writes(k, v["value"], v["text"])
        elif "kind" in c:
            writes(c["kind"], c["value"], c["text"])
        else:
            for k, w in c["want"].items():
                reads(k, c["text"], w)
    res = run_cases(chain(), ops, par=6)
    rep.ran("MC_Text", len(ops), traces=len(ops))
    again, back = [], []
    for o, w, x in zip(ops, wants, res):
        k = o["kind"]
        if "text" in o:
            head = "%s read from %s" % (k, short(points(o["text"])))
            if not x.get("ok"):
                note(rep, kinds, "form", head + ": " + short(x), o, x)
            elif "v" not in x:
                if w["s"] == "must":
                    note(rep, kinds, "form", "%s: means %s, but is refused: %s" % (head, value_of(k, w["v"]), x["err"]), o, x, w)
            elif w["s"] == "never":
                note(rep, kinds, "form", "%s: means nothing, but is read as %s" % (head, x["v"]), o, x, w)
            elif x["v"] != value_of(k, w["v"]):
                note(rep, kinds, "form", "%s: means %s, but is read as %s" % (head, value_of(k, w["v"]), x["v"]), o, x, w)
        else:
            head = "%s %s written" % (k, short(o["value"]))
            if not x.get("ok"):
                note(rep, kinds, "form", head + ": " + short(x), o, x)
            elif w["text"] is not None:
                if x.get("text") != w["text"]:
                    note(rep, kinds, "form", "%s: specification has %s, code %s" % (head, short(points(w["text"])), short(points(x["text"])) if "text" in x else x["err"]), o, x, w)
            elif "text" in x:
                again.append(dict(op="form", kind=k, text=x["text"]))
                back.append((o, w, x))
    for (o, w, x), o2, y in zip(back, again, run_cases(chain(), again, par=6) if again else []):
        if not y.get("ok") or y.get("v") != value_of(o["kind"], w["v"]):
            note(rep, kinds, "form", "%s %s is written as %s, which reads as %s" % (o["kind"], short(o["value"]), short(points(x["text"])), short(y)), o, [x, y], w)
    rep.sample(dict(textform=ops[0], value=wants[0]))

def spoilt(rng, s, how):
    i = rng.randrange(len(s))
    if how == "checksum":
        # another digit near the end
        i = len(s) - 1 - rng.randrange(3)
        return s[:i] + ("2" if s[i] != "2" else "3") + s[i + 1:]
    if how == "zero":
        return s[:i] + rng.choice("0OIl") + s[i + 1:]
    if how == "alphabet":
        return s[:i] + rng.choice(["+", "/", "é", "_"]) + s[i + 1:]
    if how == "space":
        return rng.choice([s + " ", " " + s, s[:i] + " " + s[i:], s + "\n"])
    if how == "dropped":
        return rng.choice([s[:-1], s[1:] if s[0] != "1" else s[:-1]])
    if how == "swapped":
        j = next((j for j in range(len(s) - 1) if s[j] != s[j + 1]), 0)
        return s[:j] + s[j + 1] + s[j] + s[j + 2:]
    if how == "appended":
        return s + rng.choice("12z")
    if how == "leading":
        return "1" + s

def suite_base58(rep, kinds):
    cases, t = tlc_export("MC_Base58", {"MaxSpoil": 3} if THOROUGH else {}, timeout=1500, workers=1)
    rep.spec("MC_Base58", t)
    rng = random.Random(SEED)
    keys = run_cases(chain(), [dict(op="keys", n=5)])[0]["out"]
    ops, wants = [], []
    def data(k, n, c):
        b = bytes(n) if c == 0 else bytes([255] * n) if c == 1 else bytes(rng.randrange(256) for _ in range(n))
        if k == "key" and n == 33:
            return unb58(rng.choice(keys))[3:35] + bytes([c % 2])
        return b
    def heading(k, n):
        return {0: b"", 1: bytes([n if k == "vrf" else 1]), 2: b"\1\1"}[HEAD[k]]
    HEAD = {c["kind"]: c["head"] for c in cases}
    for c in cases:
        k, n = c["kind"], c["size"]
        for v in range(3 if not c["spoil"] else 1):
            d = data(k, n, v if not c["spoil"] else 2)
            text = b58(check(bytes([c["version"]]) + heading(k, n) + d))
            good = text
            for s in sorted(c["spoil"]):
                text = spoilt(rng, text, s)
            while c["spoil"] and text == good:
                text = spoilt(rng, text, "swapped")
                text = spoilt(rng, text, min(c["spoil"]))
            ops.append(dict(op="form", kind=k, text=[ord(x) for x in text]))
            wants.append((c, d, None))
            if c["ok"]:
                ops.append(dict(op="form", kind=k, value=list(d)))
                wants.append((c, d, text))
    # other lengths and headings than the kind's own
    for k in sorted(HEAD):
        own = next(c["own"] for c in cases if c["kind"] == k)
        bad = [bytes([own])[:0], bytes([own])] if HEAD[k] else [b""]
        if k == "vrf":
            bad += [bytes([own, 31]) + bytes(32), bytes([own, 33]) + bytes(32), bytes([own, 0]) + bytes(1), bytes([own, 255]) + bytes(3)]
        for b in bad:
            ops.append(dict(op="form", kind=k, text=[ord(x) for x in b58(check(b))]))
            wants.append((dict(ok=False, version=own, size=len(b), spoil=["payload"]), b"", None))
        if k == "vrf":
            # more than its text can tell: refused, or told in some other way that reads back
            for n in (256, 257, 600):
                x = run_cases(chain(), [dict(op="form", kind=k, value=[7] * n)])[0]
                if "text" in x:
                    x = run_cases(chain(), [dict(op="form", kind=k, text=x["text"])])[0]
                    x["written"] = True
                if not x.get("ok") or x.get("v") not in (None, "07" * n) or ("written" in x and "v" not in x):
                    note(rep, kinds, "kind", "vrf of %d bytes written and read: %s" % (n, short(x)), n, x)
        for s in ("", "1", "11111", "z", "\0", "3"):
            ops.append(dict(op="form", kind=k, text=[ord(x) for x in s]))
            wants.append((dict(ok=False, version=own, size=0, spoil=["text " + s]), b"", None))
    res = run_cases(chain(), ops, par=6)
    rep.ran("MC_Base58", len(ops), traces=len(ops))
    for o, (c, d, text), x in zip(ops, wants, res):
        k = o["kind"]
        if text is None:
            head = "%s read from base58 of version %d, %d bytes %s" % (k, c["version"], c["size"], ",".join(c["spoil"]))
            if not x.get("ok"):
                note(rep, kinds, "kind", head + ": " + short(x), o, x)
            elif not c["ok"] and "v" in x:
                note(rep, kinds, "kind", "%s: should be refused, but is read as %s" % (head, short(x["v"])), o, x, c)
            elif c["ok"] and x.get("v") != d.hex():
                note(rep, kinds, "kind", "%s: is %s, but read as %s" % (head, d.hex(), short(x.get("v", x.get("err")))), o, x, c)
        else:
            head = "%s %s" % (k, d.hex()[:80])
            if not x.get("ok"):
                note(rep, kinds, "kind", "%s written: %s" % (head, short(x)), o, x)
            elif x.get("text") != [ord(y) for y in text]:
                note(rep, kinds, "kind", "%s written: specification has %s, code %s" % (head, text, points(x["text"]) if "text" in x else x["err"]), o, x, text)
    rep.sample(dict(base58=points(ops[0]["text"])))

"""Suites for wallet files (secrets crate) and ledger databases (ledger crate)."""
import glob, hashlib
from core import *
from bp import short
from mer import STABLE
from text import b58, check

THOROUGH = TIER == "thorough"
_bin = None
def node():
    global _bin
    if _bin is None:
        _bin = cargo_build("node", ["node"], extra_env=STABLE)[0]
    return _bin

def note(rep, kinds, kind, what, case, res, want=None):
    if kinds is None or kind in kinds:
        rep.violation(kind, what, dict(harness="node", case=case, observed=res, expected=want))

# ------------------------------------------------------------------------------ wallet files
SCALAR = int.from_bytes(hashlib.sha256(b"a scalar").digest(), "big") >> 3
MEM = dict(m8192=8192, m9215=9215, m9216=9216, m16384=16384, m8191=8191, m0=0, neg1=-1, neg8192=-8192, wrap=2 ** 42 + 8192, negwrap=8192 - 2 ** 42)
OPS = dict(p1=1, p2=2, p3=3, p0=0, neg1=-1, wrap=2 ** 32 + 1)
PWD = dict(ascii=b"correct horse Battery staple", line=b"correct horse Battery staple\n", none=b"", bytes=bytes([255, 254, 0, 128, 10, 13, 195]), long=bytes(97 + i % 26 for i in range(300)))
PLAIN = dict(key=b"\1" + SCALAR.to_bytes(32, "little"), nothing=b"", version=b"\1", over=b"\1" + b"\xff" * 32, small=b"\1" + (5).to_bytes(32, "little"))
PLAIN["31"], PLAIN["33"] = PLAIN["key"][:-1], PLAIN["key"] + b"\7"

def password(guess, owner):
    o = PWD[owner]
    return PWD[guess] if guess in PWD else {"nul": o + b"\0", "prefix": o[:-1], "space": o + b" ", "newline": o + b"\n", "indent": b" " + o, "case": o[:-1] + bytes(c ^ 32 for c in o[-1:])}[guess]

def raw(b):
    """the bytes a byte string of the specification stands for"""
    return bytes((b["id"] * 73 + i * 31 + i * i) % 256 for i in range(b["n"]))

def spell(v, enc):
    good = b58(check(b"\2" + v))
    if enc == "char":
        return good[:len(good) // 2] + "0" + good[len(good) // 2 + 1:]
    if enc == "check":
        w = check(b"\2" + v)
        return b58(w[:-1] + bytes([w[-1] ^ 1]))
    return dict(good=good, version=b58(check(b"\3" + v)), nocheck=b58(b"\2" + v), empty="", nonascii=good + "é")[enc]

def harmed(c, harm):
    flip = lambda i: c[:i] + bytes([c[i] ^ 4]) + c[i + 1:]
    return dict(none=lambda: c, tag=lambda: flip(3), first=lambda: flip(16 if len(c) > 16 else 0), last=lambda: flip(len(c) - 1), cut=lambda: c[:-1],
                longer=lambda: c + b"\0", headless=lambda: c[1:], short=lambda: c[:15], empty=lambda: b"")[harm]()

def wallet_text(d, cipher, n):
    doc = dict(box_primitive=d["box"], pw_primitive=d["pw"], nonce=spell(raw(d["nonce"]), d["nonce"]["enc"]), pwsalt=spell(raw(d["salt"]), d["salt"]["enc"]),
               pwdiff=[MEM[d["mem"]], OPS[d["ops"]]], ciphertext=spell(harmed(cipher, d["cipher"]["harm"]), d["cipher"]["enc"]))
    keys = sorted(doc)
    sh, k = d["shape"], keys[n % 6]
    text = [k for k in keys if k != "pwdiff"][n % 5]
    if sh == "missing":
        del doc[k]
    elif sh in ("null", "number", "list"):
        doc[text] = dict(null=None, number=5, list=[])[sh]
    elif sh == "one cost":
        doc["pwdiff"] = doc["pwdiff"][:1]
    elif sh == "three costs":
        doc["pwdiff"] = doc["pwdiff"] + [1]
    elif sh == "cost in text":
        doc["pwdiff"][n % 2] = str(doc["pwdiff"][n % 2])
    elif sh == "cost with fraction":
        doc["pwdiff"][n % 2] += 0.5
    # the order in which the parts are written is immaterial
    items = list(doc.items())
    items = items[n % 6:] + items[:n % 6]
    out = json.dumps(dict(items), ensure_ascii=n % 2 == 0, indent=2 if n % 3 == 0 else None)
    if sh == "no object":
        out = json.dumps(out)
    elif sh == "no json":
        out = out[:-1]
    elif sh == "empty":
        out = ""
    elif sh == "trailing":
        out += ",x"
    return out, doc

def suite_wallet(rep, kinds):
    cases, t = tlc_export("MC_Wallet", {"MaxDev": 3} if THOROUGH else {}, timeout=1500)
    rep.spec("MC_Wallet", t)
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    # seal first what the specification seals
    seal = lambda s, owner: json.dumps([s["salt"], s["mem"], s["ops"], owner, s["cipher"]["plain"]])
    seals = {seal(c["sealed"], c["owner"]): c for c in cases}
    ops = [dict(op="seal", pwd=PWD[c["owner"]].hex(), salt=raw(c["sealed"]["salt"]).hex(), kib=MEM[c["sealed"]["mem"]] // 1024, passes=OPS[c["sealed"]["ops"]],
                nonce=raw(c["sealed"]["nonce"]).hex(), plain=PLAIN[c["sealed"]["cipher"]["plain"]].hex()) for c in seals.values()]
    ciphers = dict(zip(seals, [bytes.fromhex(r["out"]) for r in run_cases(node(), ops)]))
    ops, docs = [], []
    for n, c in enumerate(cases):
        text, doc = wallet_text(c["doc"], ciphers[seal(c["sealed"], c["owner"])], n)
        plain = PLAIN[c["plain"]]
        ops.append(dict(op="wallet", text=text, pwd=password(c["pwd"], c["owner"]).hex(), secret=plain[1:][::-1].hex() if c["keypair"] else None))
        docs.append(doc)
    res = run_cases(node(), ops, par=6, stall=15, restarts=6)
    rep.ran("MC_Wallet", len(ops), traces=len(ops))
    for c, o, d, x in zip(cases, ops, docs, res):
        s, w = c["sealed"], c["doc"]
        diff = ["%s %s" % (k, w[k]) for k in sorted(w) if w[k] != s[k]]
        head = "wallet of a %s sealed with password '%s' (%s, %s, salt of %d bytes)%s, opened with '%s'" % (
            c["plain"], c["owner"], s["mem"], s["ops"], s["salt"]["n"], "".join("; changed: " + short(v) for v in diff), c["pwd"])
        if not x.get("ok"):
            note(rep, kinds, "open", head + ": " + short(x), o, x)
            continue
        if c["import"] != "may" and x["import"] != (c["import"] == "must"):
            note(rep, kinds, "import", "%s: %s" % (head, "refused" if c["import"] == "must" else "accepted"), o, x)
            continue
        if not x["import"]:
            continue
        want = PLAIN[c["plain"]][1:].hex() if c["open"] else None
        if x["key"] != want:
            note(rep, kinds, "open", "%s: key %s, should be %s" % (head, x["key"], want), o, x, want)
        elif x["pair"] != (True if c["keypair"] else None):
            note(rep, kinds, "open", "%s: key pair %s, should be %s" % (head, x["pair"], c["keypair"] or None), o, x)
        elif not x["same"] or (x["export"] is None and c["export"] == "must" and c["import"] == "must") or (x["export"] is not None and x["export"] != d):
            note(rep, kinds, "export", "%s: written again as %s" % (head, short(x["export"])), o, x, d)
    rep.sample(dict(wallet=ops[len(ops) // 2]))
    suite_real_wallet(rep, kinds)

REAL = "/repo/secrets/tests/data/test-wallet"
def suite_real_wallet(rep, kinds):
    """the wallet that comes with the repository, sealed by mina-keypair-gen"""
    text, pwd = open(REAL).read(), open(REAL + ".pswd", "rb").read()
    ops = [dict(op="wallet", text=text, pwd=pwd.hex(), secret=None), dict(op="wallet", text=text, pwd=(pwd + b" ").hex(), secret=None)]
    good, bad = run_cases(node(), ops)
    rep.ran("real wallet", 2, traces=2)
    doc = json.loads(text)
    if not (good.get("ok") and good["import"] and len(good["key"] or "") == 64 and good["export"] == doc):
        note(rep, kinds, "open", "the wallet in secrets/tests/data does not open with its password: " + short(good), ops[0], good)
    if not (bad.get("ok") and bad["import"] and bad["key"] is None):
        note(rep, kinds, "open", "the wallet in secrets/tests/data opens with another password: " + short(bad), ops[1], bad)

# ------------------------------------------------------------------------------ ledger databases
def seen_of(fmt, a):
    t = a["timing"]
    out = dict(key=a["key"], token=a["token"], perm=[a["perm"]["owner"], a["perm"]["flag"]], balance=a["balance"], nonce=a["nonce"][:4], receipt=a["receipt"],
               delegate=a["delegate"] if a["delegated"] else None, voting=a["voting"],
               timing=[t[k] for k in ("minimum", "cliff", "cliff_amount", "period", "increment")] if t["timed"] else None, auth=a["auth"], apps=a["apps"])
    k = "stake" if fmt == "legacy" else "symbol"
    return dict(out, **{k: a[k]})

def suite_account(rep, kinds):
    cases, t = tlc_export("MC_Account", {"MaxDev": 2} if THOROUGH else {}, timeout=2400)
    rep.spec("MC_Account", t)
    ops = [dict(op="account", fmt=c["fmt"], hex=bytes(c["bytes"]).hex()) for c in cases]
    res = run_cases(node(), ops, par=6)
    rep.ran("MC_Account", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        head = "%s account document of %d bytes" % (c["fmt"], len(c["bytes"]))
        if c["harm"]["t"] != "none":
            head += ", spoilt (%s %d %d)" % (c["harm"]["t"], c["harm"]["i"], c["harm"]["v"])
        want = seen_of(c["fmt"], c["a"]) if c["harm"]["t"] == "none" else None
        if not x.get("ok"):
            note(rep, kinds, "account", head + ": " + short(x), o, x)
        elif x["read"] != (want is not None):
            note(rep, kinds, "account", "%s: %s" % (head, "read although it is none" if x["read"] else "refused"), o, x)
        elif want is not None:
            bad = [k for k in want if x["seen"].get(k) != want[k]]
            if bad or len(want) != len(x["seen"]):
                note(rep, kinds, "account", "%s: %s read as %s, specification has %s" % (head, bad, short([x["seen"].get(k) for k in bad]), short([want[k] for k in bad])), o, x, want)
            elif x["back"] != o["hex"]:
                note(rep, kinds, "account", "%s: written back as %s" % (head, x["back"]), o, x, o["hex"])
    rep.sample(dict(account=ops[len(ops) // 2]))

def good_documents():
    """two documents of each format, as the specification writes them"""
    cases, _ = tlc_export("MC_Account", {"MaxDev": 0}, timeout=600)
    out = {}
    for c in cases:
        if c["harm"]["t"] == "none":
            out.setdefault(c["fmt"], []).append(bytes(c["bytes"]).hex())
    return {f: sorted(v)[:2] for f, v in out.items()}

def suite_ledger(rep, kinds):
    cases, t = tlc_export("MC_Ledger", {"MaxEntries": 4} if THOROUGH else {}, timeout=2400)
    rep.spec("MC_Ledger", t)
    goods = good_documents()
    allowed = {}
    for c in cases:
        allowed.setdefault(json.dumps([c["keys"], c["values"], c["fail"]]), []).append(c["out"])
    ops, outs = [], []
    for n, k in enumerate(sorted(allowed)):
        keys, values, fail = json.loads(k)
        for fmt in ("legacy", "berkeley"):
            # every database with one of the formats, the smaller ones with both
            if len(keys) > 1 and (n % 2 == 0) != (fmt == "legacy"):
                continue
            a, b = goods[fmt]
            val = dict(A=a, B=b, cut=a[:-2], trailing=b + "00", empty="", junk="0102")
            o = dict(op="ledger", fmt=fmt, items=[[bytes(i).hex(), val[v]] for i, v in zip(keys, values)], fail=bytes(fail[0]).hex() if fail else None)
            want = [[dict(A=a, B=b).get(v) for v in out] for out in allowed[k]]
            clean = [w for w in want if None not in w]
            o["want"] = clean[0] if clean and len(want) == 1 else None
            ops.append(o)
            outs.append((want, [["database" if v == "failed" else "document" for v in out if v in ("failed", "unreadable")] for out in allowed[k]]))
    res = run_cases(node(), ops, par=6)
    rep.ran("MC_Ledger", len(ops), traces=len(ops))
    for o, (want, errors), x in zip(ops, outs, res):
        head = "%s database with keys %s%s" % (o["fmt"], [k for k, _ in o["items"]], "" if o["fail"] is None else " unreadable from '%s' on" % o["fail"])
        check_ledger(rep, kinds, head, o, want, errors, x)
    rep.sample(dict(ledger=dict(ops[len(ops) // 2], want=None)))
    suite_many(rep, kinds, goods)
    suite_real_ledger(rep, kinds)

def many_accounts(fmt, docs, n):
    """a database of n accounts under rising keys, each with a public key of its own"""
    at = 12 if fmt == "legacy" else 0
    docs = [docs[i % 2][:at] + i.to_bytes(4, "little").hex() + docs[i % 2][at + 8:] for i in range(n)]
    return dict(op="ledger", fmt=fmt, items=[["fe" + (i * 3).to_bytes(4, "big").hex(), d] for i, d in enumerate(docs)], fail=None, want=docs)

def suite_many(rep, kinds, goods):
    for fmt in ("legacy", "berkeley"):
        n = 70000 if THOROUGH else 9000
        o = many_accounts(fmt, goods[fmt], n)
        x = run_cases(node(), [o])[0]
        rep.ran("large databases", n, traces=1)
        check_ledger(rep, kinds, "a %s database of %d accounts" % (fmt, n), o, [o["want"]], [[]], x)

def check_ledger(rep, kinds, head, o, want, errors, x):
    label = lambda l: [a and hashlib.sha256(a.encode()).hexdigest()[:6] for a in l]
    if not x.get("ok"):
        note(rep, kinds, "walk", head + ": " + short(x), o, x)
    elif x["accounts"] not in want:
        note(rep, kinds, "walk", "%s: accounts %s, specification has %s" % (head, short(label(x["accounts"])), short([label(w) for w in want])), o, x, want)
    elif x["errors"] not in errors:
        note(rep, kinds, "walk", "%s: errors %s, specification has %s" % (head, x["errors"], errors), o, x, errors)
    elif not x["again"]:
        note(rep, kinds, "walk", "%s: another walk yields something else" % head, o, x)
    elif o["want"] is not None and (x["root"] != x["want"] or x["count"] != len(o["want"]) or x["depth"] != 20):
        note(rep, kinds, "walk", "%s: root %s of a tree of %s accounts, the accounts have root %s" % (head, x["root"], x["count"], x["want"]), o, x)

def write_ahead_log(path):
    """the entries of a RocksDB write ahead log: key -> value"""
    b, out, rec, p = open(path, "rb").read(), {}, b"", 0
    def varint(d, i):
        r = s = 0
        while True:
            r |= (d[i] & 127) << s
            i, s = i + 1, s + 7
            if d[i - 1] < 128:
                return r, i
    while p < len(b):
        left = 32768 - p % 32768
        if left < 7:
            p += left
            continue
        n, kind = b[p + 4] | b[p + 5] << 8, b[p + 6]
        if kind == 0 and n == 0:
            break
        rec += b[p + 7:p + 7 + n]
        p += 7 + n
        if kind in (1, 4):
            count, i = int.from_bytes(rec[8:12], "little"), 12
            for _ in range(count):
                op = rec[i]
                k, j = varint(rec, i + 1)
                key, i = rec[j:j + k], j + k
                if op == 1:
                    k, j = varint(rec, i)
                    out[key], i = rec[j:j + k], j + k
                elif op == 0:
                    out.pop(key, None)
                else:
                    raise ToolError("%s: record of kind %d" % (path, op))
            rec = b""
    return out

def suite_real_ledger(rep, kinds):
    """the genesis ledgers that come with the repository"""
    for path in sorted(glob.glob("/repo/ledger/test-data/*/*.log")):
        db = write_ahead_log(path)
        want = [db[k].hex() for k in sorted(db) if k[:1] == b"\xfe"]
        if not want:
            raise ToolError(path + " has no accounts")
        fmt = "legacy" if want[0].startswith("010101") else "berkeley"
        o = dict(op="ledger", fmt=fmt, items=[[k.hex(), v.hex()] for k, v in db.items()], fail=None, want=want)
        x = run_cases(node(), [o])[0]
        rep.ran("real ledgers", len(want), traces=1)
        check_ledger(rep, kinds, "the database %s of %d accounts" % (os.path.basename(os.path.dirname(path)), len(want)), o, [want], [[]], x)

# ------------------------------------------------------------------------------ probes
def dropped_account():
    """a ledger made of a database silently lacks the accounts it could not read"""
    a, b = good_documents()["berkeley"]
    items = lambda *vs: [["fe0000%02x" % i, v] for i, v in enumerate(vs)]
    x, y = run_cases(node(), [dict(op="ledger", fmt="berkeley", items=items(*vs), fail=None, want=[a, b]) for vs in ((a, a[:-2], b), (a, b))])
    return x["ok"] and x["accounts"] == [a, None, b] and x["root"] == y["root"] and y["accounts"] == [a, b]

def noncanonical_key():
    a = good_documents()["berkeley"][0]
    return run_cases(node(), [dict(op="account", fmt="berkeley", hex="ff" * 32 + a[64:])])[0].get("err") == "PANIC"

"""Suites for the page's peer to peer part (apps/wasm/mvp, network/src/p2p)."""
import base64, hashlib, re
from core import *
from bp import short
from mer import STABLE

THOROUGH = TIER == "thorough"
_bin = {}
def sources():
    """the network crate as it is compiled for the page"""
    out = os.path.join(BUILD, "websrc", "network-p2p")
    want = {"lib.rs": "pub mod p2p;\npub mod processor;\n"}
    for part in ("p2p", "processor"):
        src = "/repo/network/src/" + part
        for d, _, fs in os.walk(src):
            for f in fs:
                p = os.path.join(d, f)
                t = open(p).read()
                if f.endswith(".rs"):
                    t = re.sub(r'target_arch\s*=\s*"wasm32"', "all()", t)
                want[os.path.join(part, os.path.relpath(p, src))] = t
    have = [os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(out) for f in fs]
    for f in have:
        if f not in want:
            os.unlink(os.path.join(out, f))
    for f, t in want.items():
        p = os.path.join(out, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)

def p2p():
    if "p2p" not in _bin:
        with open(os.path.join(BUILD, "p2psrc.lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            sources()
            _bin["p2p"] = cargo_build("p2p", ["p2p"], extra_env=STABLE)[0]
    return _bin["p2p"]

def note(rep, kinds, kind, what, case, res, want=None):
    if kinds is None or kind in kinds:
        rep.violation(kind, what, dict(harness="p2p", case=case, observed=res, expected=want))

# ------------------------------------------------------------------------------ protobuf, as its documentation has it
def varint(n):
    n &= (1 << 64) - 1
    out = bytearray()
    while n > 127:
        out.append(n & 127 | 128)
        n >>= 7
    return bytes(out + bytes([n]))
def field(k, v):
    if isinstance(v, str):
        b = v.encode()
        return varint(k << 3 | 2) + varint(len(b)) + b if b else b""
    return varint(k << 3) + varint(int(v)) if v else b""
FIELDS = ["connected", "peer_id", "sync_status", "protocol_state_hash", "git_commit", "uptime_minutes"]
def message(st):
    return b"".join(field(k + 1, st[f]) for k, f in enumerate(FIELDS))
def fields_of(b):
    """number -> value of a message (the last one counts)"""
    def num(i):
        v = s = 0
        while True:
            v |= (b[i] & 127) << s
            s += 7
            i += 1
            if b[i - 1] < 128:
                return v, i
    i, out = 0, {}
    while i < len(b):
        t, i = num(i)
        if t & 7 == 0:
            out[t >> 3], i = num(i)
        elif t & 7 == 2:
            n, i = num(i)
            out[t >> 3] = b[i:i + n]
            i += n
        else:
            raise ValueError("field type %d" % (t & 7))
    return out

# ------------------------------------------------------------------------------ the status of nodes
def status(r, n, other=False):
    if other:
        return [dict(connected=False, peer_id="", sync_status="", protocol_state_hash="", git_commit="", uptime_minutes=0),
                dict(connected=False, peer_id="\u00e9\u2028\U0001F600\n", sync_status="a b", protocol_state_hash="3N" * 400, git_commit="\"\\", uptime_minutes=-1),
                dict(connected=True, peer_id=" ", sync_status="", protocol_state_hash="x", git_commit="", uptime_minutes=2 ** 63 - 1),
                dict(connected=False, peer_id="p", sync_status="s", protocol_state_hash="h", git_commit="g", uptime_minutes=-2 ** 63)][r.randrange(4)]
    return dict(connected=True, peer_id="12D3KooW%d" % n, sync_status=r.choice(["synced", "offline", "bootstrap"]), protocol_state_hash="3NK%d" % r.randrange(10 ** 9),
                git_commit="%040x" % r.randrange(1 << 160), uptime_minutes=r.choice([1, 127, 128, 300, 100000, 2 ** 31, 2 ** 40]))
def line(kind, r, n):
    """(bytes without the end of the line, the status in it)"""
    b64 = lambda b: base64.b64encode(b if isinstance(b, bytes) else json.dumps(b).encode())
    st = status(r, n, kind == "other")
    if kind in ("status", "other"):
        return b64(json.dumps(st, ensure_ascii=r.random() < .5).encode()), st
    if kind == "padded":
        return r.choice([b" ", b"\t ", b""]) + b64(st) + r.choice([b" ", b"  \t"]), st
    if kind == "crlf":
        return b64(st) + b"\r", st
    if kind == "extra":
        d = dict(version=[1, {"a": None}], **{k: st[k] for k in reversed(FIELDS)})
        return b64(json.dumps(d, indent=1).encode()), st
    if kind == "blank":
        return r.choice([b"", b" ", b"\t", b"\r", b"   \r"]), None
    if kind == "junk":
        return r.choice([b"***", b"Error: no such protocol", b64(st)[:-5] + b"*" + b64(st)[-4:], b64(st) + b64(st)[:3], b"{" + json.dumps(st).encode() + b"}", json.dumps(st).encode(), "\u00e9".encode()]), None
    if kind == "nojson":
        return b64(r.choice([b"no status", b"", json.dumps(st).encode()[:-1], json.dumps(st).encode() + b"}", b"\xff" * 40, b"null", b"[]", b"{}"])), None
    if kind == "short":
        gone = r.choice(FIELDS)
        return b64({k: v for k, v in st.items() if k != gone}), None
    if kind == "odd":
        k = r.choice(FIELDS)
        return b64(dict(st, **{k: r.choice([None, [st[k]], {}, 1.5, 2 ** 63 if k == "uptime_minutes" else 1 if k != "uptime_minutes" else "1"])})), None
    if kind == "notext":
        return r.choice([b"\xff\xfe", b64(st) + b"\xc3", b"\x80" + b64(st)]), None
    raise ToolError(kind)
def cut(b, r):
    """a stream in packets, some of them late"""
    how = r.randrange(5)
    if how == 0:
        parts = [b]
    elif how == 1 and len(b) < 700:
        parts = [b[i:i + 1] for i in range(len(b))]
    elif how == 2:
        parts = b.replace(b"\n", b"\n\0").split(b"\0")
    else:
        parts, i = [], 0
        while i < len(b):
            n = r.choice([1, 2, 7, 100, 1000, 9000])
            parts.append(b[i:i + n])
            i += n
    out = []
    for p in parts:
        if r.random() < .2:
            out.append("wait")
        if p:
            out.append(p.hex())
    return out
GOOD = ["/dns4/proxy.example/tcp/443/wss", "/ip4/127.0.0.1/tcp/23333/ws/p2p/12D3KooWKK3RpV1MWAZk3FJ5xqbVPL2BMDdUEGSfwfQoUprBNZCv", "/ip6/::1/tcp/1/ws"]
BAD = ["hello", "/dns4", "/ip4/300.0.0.1/tcp/1", "/ip4/127.0.0.1/tcp/65536/ws", "127.0.0.1:80", " /ip4/127.0.0.1", "wss://proxy.example:443", "/nothing/1", "\u00e9"]
BROKEN = [b"\x0a", b"\x0a\x05ab", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"\x0b", b"\x80", b"\x0a\xff\xff\xff\xff\x0f", b"\x00\x00"]
def network(name):
    return hashlib.blake2b(name.encode(), digest_size=32).hexdigest()
MAINNET = "/coda/0.0.1/5f704cc0c82e0ed70e873f0893d7e06f148524e3f0bdae2afb02e7819a0c24d1"
KEY = dict(own=7, given=11, **{"with": 13})
def made(net, mplex, time, key):
    return "transport %s %d %s %d peer%d" % (network(net), key, mplex, time * 1000, key)

def connect_op(c, n, r):
    addr = r.choice(GOOD)
    req = dict(good=field(1, addr), noaddress=field(1, r.choice(BAD)), broken=r.choice(BROKEN), notext=b"\x0a\x02\xff\xfe")[c["request"]]
    if c["request"] == "good":
        # what a later version of the page may add
        req = r.choice([req, req, field(9, "more") + req, req + field(2, 77), field(1, "/ip4/1.2.3.4/tcp/9/ws") + req])
    streams, statuses = [], []
    for ls, e in zip(c["streams"], c["ends"]):
        b, sts = b"", []
        for k in ls:
            x, st = line(k, r, n)
            b += x + b"\n"
            sts.append(st)
        if e in ("cut", "cutfails"):
            x, st = line("status", r, n)
            b += x
            sts.append(st)
        if "notext" in ls and r.random() < .5:
            b += line("status", r, n)[0] + b"\n"      # is not looked at any more
        streams.append(cut(b, r) + (["fails"] if e.endswith("fails") else []))
        statuses.append(sts)
    op = dict(op="connect", request=req.hex(), dialfails=c["dial"] == "fails", listens=c["listens"], events=c["events"], streams=streams)
    told = [["update", message(statuses[s - 1][k - 1]).hex()] for s, k in c["told"]]
    return op, dict(addr=addr, told=told)

def connect_differs(c, w, x):
    log = x["log"]
    if c["answer"] == "refused":
        if "err" not in (x["answer"] if isinstance(x["answer"], dict) else {}):
            return "is not refused: %s" % short(x["answer"])
        if any(l.startswith(("dial", "ask")) for l in log) or x["emitted"]:
            return "is refused, but %s" % short(log)
        return None
    if x["emitted"] != w["told"]:
        return "hands over %d statuses, specification %d: %s" % (len(x["emitted"]), len(w["told"]), short([x["emitted"][:3], w["told"][:3]]))
    if [l for l in log if l.startswith("dial")] != ["dial " + w["addr"]]:
        return "dials %s" % short(log[:3])
    if c["answer"] == "failed":
        a = x["answer"]
        f = fields_of(bytes.fromhex(a["response"])) if isinstance(a, dict) and "response" in a else None
        if f is None or f.get(1) or not f.get(2):
            return "a dial that fails is answered with %s" % short(a)
        if any(l.startswith("ask") for l in log):
            return "asks all the same"
        return None
    if x["answer"] != "waits":
        return "does not go on listening: %s" % short(x["answer"])
    ts = [l for l in log if l.startswith("transport")]
    if len(ts) != 1 or ts[0].split(" ")[:4] != made(MAINNET, "/coda/mplex/1.0.0", 1, 7).split(" ")[:4]:
        return "goes over %s" % short(ts)
    asks = [l for l in log if l.startswith("ask")]
    if asks != ["ask peer%d /mina-proxy/node-status" % p for p in c["asked"]]:
        return "asks %s, specification %s" % (asks, c["asked"])
    if [l for l in log if l.startswith("wrote")] != ["wrote 0 closed true"] * len(asks):
        return "the question: %s" % short([l for l in log if l.startswith("wrote")])
    if len([l for l in log if l.startswith("answered")]) != len(asks):
        return "a stream is never over: %s" % short(log[-3:])
    return None

def describe(c):
    return "request %s, dial %s, %s" % (c["request"], c["dial"], "; ".join(" ".join(ls + [e]) for ls, e in zip(c["streams"], c["ends"])) or c["events"])

def suite_status(rep, kinds):
    cases, t = tlc_export("MC_NodeStatus", {"MaxLines": 3 if THOROUGH else 2}, timeout=1500)
    rep.spec("MC_NodeStatus", t)
    r = rng("nodestatus")
    if len(cases) > (60000 if THOROUGH else 12000):
        keep = [c for c in cases if not c["asked"]]
        cases = keep + r.sample([c for c in cases if c["asked"]], 60000 if THOROUGH else 12000)
    more, t = tlc_export("MC_NodeStatus", {"MaxEvents": 6, "MaxLines": 40, "Random": "TRUE"}, timeout=900, workers=1,
                         simulate=["-simulate", "num=%d" % (6000 if THOROUGH else 600), "-depth", "60", "-seed", str(SEED)])
    rep.spec("MC_NodeStatus (random)", t)
    for part in ([c for c in cases if not c["listens"]], [c for c in cases if c["listens"]] + more):
        # the page's listener is kept for good: those who have none are run first, by themselves
        both = [connect_op(c, n, r) for n, c in enumerate(part)]
        ops = [o for o, _ in both]
        res = run_cases(p2p(), ops, par=6)
        rep.ran("MC_NodeStatus", len(ops), traces=len(ops))
        for c, (o, w), x in zip(part, both, res):
            what = short(x) if not x.get("ok") else connect_differs(c, w, x)
            if what:
                note(rep, kinds, "status", "%s: %s" % (describe(c), what), o, x, w)
    rep.sample(dict(status=both[len(both) // 2][0]))

def suite_transport(rep, kinds):
    cases, t = tlc_export("MC_Transport", {"MaxSteps": 4 if THOROUGH else 3}, timeout=600)
    rep.spec("MC_Transport", t)
    ops = [dict(op="transport", steps=[dict(do=s[0], arg=str(s[1])) for s in c["steps"]]) for c in cases]
    res = run_cases(p2p(), ops, par=4)
    rep.ran("MC_Transport", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        m = c["made"]
        want = made(m["net"], m["mplex"], m["time"], KEY[m["key"]])
        if x.get("made") != want:
            note(rep, kinds, "transport", "%s: %s, specification %s" % ([s for s in c["steps"]], short(x.get("made", x)), want), o, x, want)

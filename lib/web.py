"""Suites for the pages (network/src/processor/js, network/js, apps/wasm) and the block crawler."""
import glob, re, shutil
import gql
from core import *
from bp import short
from mer import STABLE

THOROUGH = TIER == "thorough"
_bin = {}
def sources():
    """the network crate's processor with the part for the page, which is compiled for wasm32 only"""
    out = os.path.join(BUILD, "websrc", "network")
    src = "/repo/network/src/processor"
    want = {"lib.rs": "pub mod processor;\n"}
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            t = open(p).read()
            if f.endswith(".rs"):
                t = re.sub(r'target_arch\s*=\s*"wasm32"', "all()", t)
            want[os.path.join("processor", os.path.relpath(p, src))] = t
    have = [os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(out) for f in fs]
    for f in have:
        if f not in want:
            os.unlink(os.path.join(out, f))
    for f, t in want.items():
        p = os.path.join(out, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)

def web():
    if "web" not in _bin:
        with open(os.path.join(BUILD, "websrc.lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            sources()
            _bin["web"] = cargo_build("web", ["web"], extra_env=STABLE)[0]
    return _bin["web"]

def note(rep, kinds, kind, what, case, res, want=None):
    if kinds is None or kind in kinds:
        rep.violation(kind, what, dict(harness="web", case=case, observed=res, expected=want))

# ------------------------------------------------------------------------------ the networks of a page
def block_text():
    """a block of the main network with @N@ for its number"""
    d = json.load(open(glob.glob("/repo/protocol/test-fixtures/src/data/mainnet-77748-*.json")[0]))
    d.pop("scheduled_time", None)
    d["protocol_state"]["body"]["consensus_state"]["blockchain_length"] = "@N@"
    f = os.path.join(scratch(), "block.json")
    open(f, "w").write(json.dumps(d))
    return f

def answer(kind, n, which):
    """what the page gives where the specification says `which`"""
    if which in ("good", "anyjson") and kind == "berkeley":
        return dict(t="json", text=json.dumps(dict(n=n, text="\u00e9\n") if which == "good" else [[None, n], n, "%d" % n, True][n % 4]))
    v = dict(good=dict(t="block", n=n), throw=[dict(t="throw", text="gone"), dict(t="throw", text=None)][n % 2], nothing=[dict(t="undefined"), dict(t="null")][n % 2],
             number=dict(t="number"), text=dict(t="json", text=["", "{", "<html>", '{"a":1}x'][n % 4]), anyjson=dict(t="json", text=["null", "{}", "[]", '{"protocol_state":5}'][n % 4]))
    return v[which]

def backend_op(c, n):
    """the calls for a case of the specification, and what the places mean"""
    steps, docs, base = [], {}, 0
    for i, s in enumerate(c["log"]):
        o = dict(op=s["op"])
        if s["op"] in ("apis", "accounts"):
            o["list"] = s["list"]
        elif s["op"] in ("poll", "query"):
            o["height"], o["hash"] = 77000 + i, "3N%d" % i
            if c["kind"] == "v1":
                names = ["b%d.%d" % (i, k) for k in range(len(s["answers"]))]
                if s["op"] == "query":
                    names = [o["hash"]]
                o["names"] = names
                o["answers"] = {m: answer("v1", 10 * i + k + 1, a) for k, (m, a) in enumerate(zip(names, s["answers"]))}
                if s["op"] == "poll":
                    l = [dict(blockHeight=500 + k, stateHash=m) for k, m in enumerate(names)]
                    if s["list"] == "good":
                        o["answers"]["list"] = dict(t="json", text=json.dumps(l))
                    elif s["list"] == "anyjson":
                        bad = [dict(blocks=l), l + [dict(stateHash="x")], l + [dict(blockHeight="501", stateHash="x")], None, l + [None], l + [dict(blockHeight=-1, stateHash="x")]]
                        o["answers"]["list"] = dict(t="json", text=json.dumps(bad[n % 6]))
                    else:
                        o["answers"]["list"] = answer("v1", n, s["list"])
            else:
                o["answers"] = {a: answer("berkeley", 10 * i + s["rank"][a], k) for a, k in s["answers"].items()}
        steps.append(o)
    return dict(op="backend", kind=c["kind"], cap=1 + n % 2 * n % 3, lazy=n % 3 == 0, steps=steps)

def suite_backend(rep, kinds):
    cases, t = tlc_export("MC_Backend", {"MaxList": 2 if THOROUGH else 1}, timeout=1500)
    rep.spec("MC_Backend", t)
    more, t = tlc_export("MC_Backend", {"SetUp": "TRUE", "Depth": 1, "Three": "TRUE", "MaxList": 4 if THOROUGH else 3}, timeout=1500)
    rep.spec("MC_Backend (from a page that is set up)", t)
    cases += more
    more, t = tlc_export("MC_Backend", {"SetUp": "TRUE", "Depth": 5, "Three": "TRUE", "MaxList": 4}, timeout=900, workers=1,
                         simulate=["-simulate", "num=%d" % (2000 if THOROUGH else 150), "-depth", "90", "-seed", str(SEED)])
    rep.spec("MC_Backend (random)", t)
    cases += more
    # the order in which the endpoints are asked is free
    groups = {}
    for c in cases:
        key = json.dumps([c["kind"], [{k: v for k, v in s.items() if k not in ("asked", "got")} for s in c["log"]]], sort_keys=True)
        groups.setdefault(key, c)
    doc = block_text()
    cases = [groups[k] for k in sorted(groups)]
    if not THOROUGH and len(cases) > 5000:
        cases = rng("backend").sample(cases, 5000)
    ops = [dict(backend_op(c, n), doc=doc) for n, c in enumerate(cases)]
    res = run_cases(web(), ops, par=6)
    rep.ran("MC_Backend", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        head = "%s network, %s" % (c["kind"], "; ".join(describe(s) for s in c["log"]))
        if not x.get("ok"):
            note(rep, kinds, "backend", head + ": " + short(x), o, x)
            continue
        what = backend_differs(c, o, x["out"])
        if what:
            note(rep, kinds, "backend", head + ": " + what, o, x, c["log"])
    rep.sample(dict(backend=ops[len(ops) // 2]))

def describe(s):
    return s["op"] + (" " + short(s["list"]) if s["op"] in ("apis", "accounts") or s.get("list", "good") != "good" else "") + (" " + short(s["answers"]) if s.get("answers") else "")

def backend_differs(c, o, out):
    accounts, closed = set(), False
    for i, (s, q, g) in enumerate(zip(c["log"], o["steps"], out)):
        at = "step %d (%s): " % (i + 1, s["op"])
        if s["op"] == "accounts":
            accounts = set(s["list"])
        closed = (closed or s["op"] == "close") and s["op"] != "open"
        if g["err"] != s["err"]:
            return at + ("an error is reported" if g["err"] else "no error is reported")
        if s["op"] not in ("poll", "query"):
            if g["asked"] or g["got"]:
                return at + "asks %s" % g["asked"]
            continue
        if c["kind"] == "v1":
            names = {k + 1: ["fetch_block_json_str", 500 + k if s["op"] == "poll" else q["height"], m] for k, m in enumerate(q["names"])}
            names[0] = ["query_latest_blocks_json_str", 10]
            want = [names[a] for a in s["asked"]]
            if g["asked"] != want:
                return at + "asks %s, specification %s" % (g["asked"], want)
            first = next((e["n"] for e in q["answers"].values() if e["t"] == "block"), None)
            docs = [] if closed else [q["answers"][q["names"][k]]["n"] for k, a in enumerate(s["answers"]) if k + 1 in s["asked"] and a == "good"]
            if g["got"] != docs:
                return at + "hands over %s, specification %s" % (g["got"], docs)
            if len(docs) != len(s["got"]):
                raise ToolError("binding of MC_Backend")
            continue
        if any(a[0] != "fetch_best_chain_json_str" or set(a[2]) != accounts or len(a[2]) != len(accounts) for a in g["asked"]):
            return at + "asks %s, accounts are %s" % (g["asked"], sorted(accounts))
        order = [a[1] for a in g["asked"]]
        if closed:
            if len(set(order)) != len(order) or not set(order) <= set(s["asked"]) or g["got"]:
                return at + "asks %s" % order
            continue
        if sorted(order) != sorted(s["asked"]):
            return at + "asks %s, specification %s" % (order, s["asked"])
        docs = [json.loads(q["answers"][a]["text"]) for a in order if s["answers"][a] in ("good", "anyjson")]
        if g["got"] != docs:
            return at + "hands over %s, specification %s" % (short(g["got"]), short(docs))
        if len(docs) != len(s["got"]):
            raise ToolError("binding of MC_Backend")
    return None

# ------------------------------------------------------------------------------ the fetching code of a page
def node_page(cases):
    """run network/js under node against a scripted network"""
    d = scratch()
    f = os.path.join(d, "page-cases")
    open(f, "w").write("".join(json.dumps(c) + "\n" for c in cases))
    p = subprocess.run(["node", os.path.join(VERIF, "harness", "web", "page.js"), f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    out = [json.loads(l) for l in p.stdout.split("\n") if l]
    if p.returncode or len(out) != len(cases):
        # the page's code does not even load, or ends the program
        return out + [dict(ok=False, error="node: " + p.stderr[-400:], asked=[])] * (len(cases) - len(out))
    return out

def leaves_of_state():
    docs, _ = tlc_export("MC_GraphQl", {"MaxDev": 0}, timeout=300, workers=1)
    return next(c["leaves"] for c in docs if c["mode"] == "leaves" and c["which"] == "state")

ENDPOINT = "http://localhost:3085/graphql"
def suite_fetch(rep, kinds):
    cases, t = tlc_export("MC_Fetch", timeout=300)
    rep.spec("MC_Fetch", t)
    needed = [tuple(l["p"].split("/")) for l in leaves_of_state()]
    ops = []
    for n, c in enumerate(cases):
        args = dict(block=[77000 + n, "3N%dé" % n], latest=[[1, 10, 500][n % 3]], best=[ENDPOINT + "?%d" % n, [[], ["B62q1"], ["B62qa", "B62qb", "B62qc"]][n % 3]])[c["what"]]
        def reply(i, o):
            if o == "unreachable":
                return dict(error="try %d" % i)
            if o == "garbled":
                return dict(status=502, text=["<html>", "", "{", "try"][(n + i) % 4])
            if c["what"] == "block":
                return dict(status=200, text=json.dumps(dict(n=i, deep=[dict(x="\u2028\n\"", y=[None, True, 0.5])])))
            if c["what"] == "latest":
                return dict(status=200, text=json.dumps(dict(data=dict(blocks=[dict(blockHeight=i, stateHash="h")])) if o == "answer" else [dict(errors=[]), None][(n + i) % 2]))
            data = dict(bestChain=[dict(protocolState=dict(previousStateHash="p%d" % i, blockchainState=dict(date="d"))), dict(protocolState=dict(blockchainState={}))],
                        genesisBlock=dict(protocolState=dict(blockchainState=dict(snarkedLedgerHash="g%d" % i))), B62q1=dict(merklePath=[], leafHash="5"))
            if o == "shapeless":
                data = [None, dict(data, bestChain=None), dict(data, bestChain=[]), dict(data, genesisBlock=None)][(n + i) % 4]
            return dict(status=200, text=json.dumps(dict(data=data)))
        ops.append(dict(what=c["what"], args=args, script=[reply(i + 1, o) for i, o in enumerate(c["script"])]))
    res = node_page(ops)
    rep.ran("MC_Fetch", len(ops), traces=len(ops))
    for c, o, x in zip(cases, ops, res):
        head = "%s of a page, tries %s: " % (c["what"], c["script"])
        what = fetch_differs(c, o, x, needed)
        if what:
            note(rep, kinds, "fetch", head + what, o, x)
    rep.sample(dict(fetch=ops[len(ops) // 2]))

def fetch_differs(c, o, x, needed):
    ok, n = c["result"][0] == "ok", c["result"][1]
    if x["ok"] != ok:
        return "fails: %s" % x.get("error") if ok else "succeeds"
    if len(x["asked"]) != n:
        return "%d requests, specification has %d" % (len(x["asked"]), n)
    if any(a != x["asked"][0] for a in x["asked"]):
        return "the tries differ"
    if not ok:
        last = o["script"][n - 1].get("error")
        if last and x["error"] != last:
            return "reports '%s', the last try failed with '%s'" % (x["error"], last)
    else:
        got, want = json.loads(x["text"]), json.loads(o["script"][n - 1]["text"])
        if c["what"] == "latest":
            want = want["data"]["blocks"]
        elif c["what"] == "best":
            want = want["data"]
            want["bestChain"][0]["protocolState"]["blockchainState"]["genesisLedgerHash"] = want["genesisBlock"]["protocolState"]["blockchainState"]["snarkedLedgerHash"]
        if got != want:
            return "gives %s, the network said %s" % (short(got), short(want))
    a = x["asked"][0]
    if c["what"] == "block":
        want = "https://storage.googleapis.com/mina_network_block_data/mainnet-%d-%s.json" % tuple(o["args"])
        return None if a["url"] == want and a["method"] == "GET" else "asks %s %s" % (a["method"], a["url"])
    if a["url"] != (o["args"][0] if c["what"] == "best" else "https://graphql.minaexplorer.com/") or a["method"] != "POST":
        return "asks %s %s" % (a["method"], a["url"])
    if {k.lower(): v for k, v in a["headers"].items()}.get("content-type") != "application/json":
        return "the request is not declared to be JSON"
    try:
        body = json.loads(a["body"])
        kind, name, sel = gql.parse(body["query"])
    except (ValueError, KeyError, gql.GqlError) as e:
        return "the request is no GraphQL document: %s" % e
    if kind != "query" or body.get("operationName") not in (None, name):
        return "asks for operation %s of a document that has %s %s" % (body.get("operationName"), kind, name)
    if c["what"] == "latest":
        f = sel.get("blocks", dict(args={}, sub={}))
        want = dict(limit=o["args"][0], sortBy=("enum", "RECEIVEDTIME_DESC"))
        return None if list(sel) == ["blocks"] and f["args"] == want and {"blockHeight", "stateHash"} <= set(f["sub"]) else "asks for %s" % short(sel)
    have = set(gql.paths(sel))
    # what the reader of the answer needs, but for what the page fills in itself
    need = {("bestChain", "protocolState") + p for p in needed if p[-1] != "genesisLedgerHash"} | {("genesisBlock", "protocolState", "blockchainState", "snarkedLedgerHash")}
    for k in o["args"][1]:
        need |= {(k, "merklePath", "left"), (k, "merklePath", "right"), (k, "leafHash")}
        if k in sel and (sel[k]["name"] != "account" or sel[k]["args"] != dict(publicKey=k)):
            return "%s is asked as %s" % (k, short(sel[k]))
    if need - have:
        return "does not ask for %s" % sorted(need - have)
    more = set(sel) - {"bestChain", "genesisBlock"} - set(o["args"][1])
    return "asks for %s as well" % more if more else None

# ------------------------------------------------------------------------------ what a page asks its node to do
TEXTS = dict(plain=["B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg", "pass word", "naive"], empty=[""], quote=['a"b', '"', '""'], backslash=["a\\b", "end\\", "\\\\n", '\\"'],
             newline=["a\nb", "\r\n", "\n"], control=["\x01\t", "\x00", "\x7f\x1f\b\f"], unicode=["p\u00e4ss", "\u2028\u2029", "\U0001f511key", "\ufeffx"],
             braces=["{", "}}", "${v}{}", "{0}%s{{x}}"], injection=['x", password: "y', 'x"}) { account { locked } } unlockAccount(input: {publicKey: "z', '#', '"""x"""'], long=["k" * 5000])
num = lambda s: dict(n=s)
NUMBERS = dict(zero=[num("0"), dict(big="0"), num("-0")], one=[num("1"), dict(big="1")], exact=[num("9007199254740991"), num("1000000000"), num("281474976710656")], max=[dict(big="18446744073709551615")],
               text=["7", "18446744073709551615"], over=[dict(big="18446744073709551616"), "18446744073709551616"], minus=[num("-1"), dict(big="-5"), "-1"], fraction=[num("1.5"), num("1e-7"), "2.5"],
               nan=[num("NaN"), num("inf"), num("-inf")], huge=[num("1e21"), num("1e300")], null=[None], emptytext=[""], word=["x1", "1e3", "0x10", "1_000"], truth=[True, False],
               max32=[num("4294967295")], over32=[num("4294967296"), dict(big="18446744073709551616")])
def page_value(kind, cls, n):
    l = TEXTS[cls] if "text" in kind and cls in TEXTS else NUMBERS[cls]
    if kind == "optu32any" and cls == "text":
        l = ["7", "4294967295"]
    if kind == "optu32":         # the binding takes no other numbers
        l = [v for v in l if v is None or "n" in v]
    return l[n % len(l)]
def js_text(v):
    """a value in the page's own language"""
    if isinstance(v, dict):
        return v["big"] + "n" if "big" in v else {"inf": "Infinity", "-inf": "-Infinity"}.get(v["n"], v["n"]) if v else "undefined"
    return json.dumps(v)
KINDS = dict(publicKey="text", password="text", to="text", fee="u64", amount="u64", nonce="optu32", memo="opttext", validUntil="optu32any", **{"from": "text"})
CALLS = dict(lock=("mutation", "lockAccount", {("account", "locked")}), unlock=("mutation", "unlockAccount", {("account", "locked")}), pay=("mutation", "sendPayment", {("payment", "id")}),
             info=("query", "account", {("balance", "total"), ("inferredNonce",), ("locked",)}))
ANSWERS = {"json": ['{"data":{"x":{"locked":true}}}', '{"data":{"p":{"id":"\\u00e9\\n\\"","n":18446744073709551615,"f":[null,-1,0.5]}}}', "[1]", "null"],
           "error json": ['{"errors":[{"message":"no \\"such\\" account"}]}', '{"data":null,"errors":[]}'], "not json": ["<html></html>", '{"data":{}}}', "{'a':1}", '{"data":', "NaN"], "empty": ["", " "]}

def page_calls(log, app, n):
    calls = []
    for i, e in enumerate(log):
        f = {k: page_value(KINDS[k], v, n + i + len(k)) for k, v in e["call"]["fields"].items() if v != "absent"}
        a = e["answer"]
        answer = dict(error="connection refused") if a in ("unreachable", "none") else dict(text='{"data":1}', broken=True) if a == "broken" else dict(text=ANSWERS[a][(n + i) % len(ANSWERS[a])])
        calls.append(dict(op=e["call"]["op"], endpoint="http://node%d/graphql" % (n % 3), fields=f, answer=answer))
    return dict(op="page", app=app, calls=calls)

def request_says(app, call, a):
    """the operation and arguments of a request as a node reads it"""
    url = call["endpoint"] if app == "berkeley" else "http://localhost:3085/graphql"
    if a["method"] != "POST" or a["url"] != url:
        raise gql.GqlError("it goes to %s %s" % (a["method"], a["url"]))
    body = a["body"]
    kind, name, sel = gql.parse(body["query"], body.get("variables"))
    if body.get("operationName") not in (None, name):
        raise gql.GqlError("it asks for operation %s" % body["operationName"])
    if len(sel) != 1:
        raise gql.GqlError("it asks for %s" % list(sel))
    f = list(sel.values())[0]
    args = f["args"]
    if call["op"] != "info":
        if set(args) != {"input"} or not isinstance(args["input"], dict):
            raise gql.GqlError("its arguments are %s" % short(args))
        args = args["input"]
    return kind, f["name"], {k: v for k, v in args.items() if v is not None}, set(gql.paths(f["sub"]))

def page_differs(app, log, o, x, same):
    for i, (e, k, g) in enumerate(zip(log, o["calls"], x["out"])):
        at = "call %d: " % (i + 1)
        if len(g["asked"]) != (1 if e["sent"] else 0):
            return at + "%d requests are sent" % len(g["asked"])
        if (e["result"] == "answer") != ("answer" in g):
            return at + ("it fails: " + g["err"] if "err" in g else "it succeeds with " + g["answer"][:100])
        if e["result"] == "answer" and json.loads(g["answer"]) != json.loads(k["answer"]["text"]):
            return at + "the node answered %s, the page gets %s" % (k["answer"]["text"], g["answer"][:200])
        if not e["sent"]:
            continue
        try:
            kind, name, args, sub = request_says(app, k, g["asked"][0])
        except (gql.GqlError, KeyError, TypeError) as err:
            return at + "the node cannot read the request: %s" % err
        wk, wn, need = CALLS[k["op"]]
        if (kind, name) != (wk, wn) or not need <= sub:
            return at + "it asks for %s %s %s" % (kind, name, sorted(sub))
        want = {}
        for f, v in k["fields"].items():
            if v is None or KINDS[f] == "optu32any" and v == "":
                continue
            want[f] = v if "text" in KINDS[f] else int(v["big"] if isinstance(v, dict) and "big" in v else v["n"] if isinstance(v, dict) else v)
        got = {f: int(v) if isinstance(want.get(f), int) and isinstance(v, str) and v.isdigit() else v for f, v in args.items()}
        if want.get("memo") == "" and "memo" not in got:
            del want["memo"]
        if got != want:
            return at + "the request says %s, the page said %s" % (short(got), short(want))
    for name, src, v in x["templates"]:
        same.setdefault((name, src), set()).add(v)
    return None

def suite_page(rep, kinds):
    cases, t = tlc_export("MC_Page", {"MaxDev": 2 if THOROUGH else 1}, timeout=900)
    rep.spec("MC_Page", t)
    more, t = tlc_export("MC_Page", {"MaxDev": 1, "Depth": 3}, timeout=900, workers=1,
                         simulate=["-simulate", "num=%d" % (2000 if THOROUGH else 300), "-depth", "12", "-seed", str(SEED)])
    rep.spec("MC_Page (random)", t)
    cases += more
    # each class has several values
    plans = [(c, n + j) for n, c in enumerate(cases) for j in range(1 if len(c["log"]) > 1 else 4)]
    ops = [page_calls(c["log"], c["app"], n) for c, n in plans]
    res = run_cases(web(), ops, par=6)
    rep.ran("MC_Page", len(ops), traces=len(ops))
    sources = {}
    for (c, n), o, x in zip(plans, ops, res):
        what = short(x) if not x.get("ok") else page_differs(c["app"], c["log"], o, x, sources)
        if what:
            note(rep, kinds, "page", "page of %s, %s: %s" % (c["app"], "; ".join("%s %s answer %s" % (e["call"]["op"], {f: v for f, v in e["call"]["fields"].items()}, e["answer"]) for e in c["log"]), what), o, x, c["log"])
    # the bit of script that turns a number into text, run by a real engine, against the stand-in for it
    vals = [v for l in NUMBERS.values() for v in l] + [{}]
    asks = [(name, src, v) for name, src in sorted(sources) for v in vals]
    ask = [dict(what="template", args=[s, js_text(v), n], script=[]) for n, s, v in asks]
    for (n, s, v), x in zip(asks, node_page(ask)):
        want = js_number(v)
        if not x["ok"] or json.loads(x["text"]) != want:
            note(rep, kinds, "page", "the script %s makes %s of %s" % (n, short(x), js_text(v)), dict(what="template", args=[s, js_text(v), n]), x, want)
    rep.ran("MC_Page (script)", len(ask), traces=len(ask))
    rep.sample(dict(page=ops[len(ops) // 2]))
def js_number(v):
    if isinstance(v, dict):
        return v.get("big") or {"inf": "Infinity", "-inf": "-Infinity", "-0": "0"}.get(v.get("n"), v.get("n", "undefined")).replace("1e21", "1e+21").replace("1e300", "1e+300")
    return v if isinstance(v, str) else json.dumps(v)

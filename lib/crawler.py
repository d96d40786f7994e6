"""Suite for the block crawler (apps/tools/blocks-crawler), run as the program it is against a scripted network."""
import glob, resource, shutil
from concurrent.futures import ThreadPoolExecutor
import gql
from core import *
from bp import short
from mer import STABLE

THOROUGH = TIER == "thorough"
_bin = {}
def crawler():
    if "crawler" not in _bin:
        _bin["crawler"] = cargo_build("crawler", ["blocks-crawler"], extra_env=STABLE)[0]
    return _bin["crawler"]

def base_block():
    d = json.load(open(glob.glob("/repo/protocol/test-fixtures/src/data/mainnet-77748-*.json")[0]))
    d.pop("scheduled_time", None)
    return d
SMALL = [5, "x", [], {}, None, True, {"scheduled_time": "1"}, {"protocol_state": None}]
UNNAMED = ["a/b", "n" * 300, "../../../../up", "nul\0", "a/../../succeeded/x"]
LIMIT = 4000
def documents(base, n):
    good = json.loads(json.dumps(base))
    good["protocol_state"]["body"]["consensus_state"]["blockchain_length"] = str(1000 + n)
    bad = json.loads(json.dumps(good))
    if n % 3 == 0:
        good["comment"] = dict(x=[n])      # kept, if unknown to the code
    [lambda: bad.pop("protocol_state_proof"), lambda: bad.__setitem__("delta_transition_chain_proof", 5), lambda: bad["protocol_state"].pop("previous_state_hash"),
     lambda: bad["protocol_state"]["body"]["consensus_state"].__setitem__("total_currency", "one")][n % 4]()
    return good, bad

def scenario(c, n, base):
    """the network, the folders and the names for a case of the specification"""
    R = rng("crawl%d" % n)
    names, routes, docs = {}, [], {}
    for k, o in enumerate(c["outcome"]):
        h = R.choice(UNNAMED) if o == "unnamed" else "3N%d\u00e9" % k if R.random() < .2 else "3NK%d%d" % (k, n)
        names[k + 1] = (500 + k if R.random() < .8 else 500, h)
        good, bad = documents(base, n + k)
        d = dict(good=good, unnamed=good, bad=bad, small=SMALL[(n + k) % len(SMALL)]).get(o)
        docs[k + 1] = d
        r = dict(url="https://storage.googleapis.com/mina_network_block_data/mainnet-%d-%s.json" % names[k + 1], status=200, pause=R.choice([0, 0, 1, 5]))
        if o in ("good", "bad", "small", "unnamed"):
            t = dict(d, scheduled_time="1620000000000") if o in ("good", "bad", "unnamed") and R.random() < .6 else d
            r["text"] = json.dumps(t)
        elif o == "notjson":
            r["text"] = ["", "<?xml version='1.0'?><Error/>", json.dumps(good)[:-1], json.dumps(good) + "x"][(n + k) % 4]
        elif o == "broken":
            r.update(text=json.dumps(good), broken=True)
        elif o == "status":
            r.update(status=[404, 500, 403, 503][(n + k) % 4], text=[json.dumps(dict(error="x")), json.dumps(good), "<Error/>"][(n + k) % 3])
        else:
            r["error"] = "connection refused"
        routes.append(r)
    l = [dict(blockHeight=names[k][0], stateHash=names[k][1], more=1) for k in c["list"]]
    bad = [dict(error="refused"), dict(status=200, text="<html>"), dict(status=200, text='{"errors":[]}'), dict(status=200, text='{"data":{"blocks":[{"blockHeight":"1"}]}}'), dict(status=502, text="bad gateway")]
    routes.append(dict(dict(status=200, text=json.dumps(dict(data=dict(blocks=l)))) if c["listed"] else bad[n % 5], url="https://graphql.minaexplorer.com/"))
    return dict(names=names, routes=routes, docs={k: d for k, d in docs.items()}, width=c["width"], fault=c["fault"], ok0=c["ok0"], no0=c["no0"], limit=1 + n % 500)

def crawl(s):
    """runs the crawler in a folder of its own"""
    d = tempfile.mkdtemp(dir=scratch())
    try:
        os.mkdir(d + "/run")
        for folder, old in (("succeeded", s["ok0"]), ("failed", s["no0"])):
            if any(o == "old" for o in old):
                os.makedirs(d + "/run/output/" + folder)
            for k, o in enumerate(old):
                if o == "old":
                    open("%s/run/output/%s/mainnet-%d-%s.json" % (d, folder, *s["names"][k + 1]), "w").write('{"old":%d}' % k)
        json.dump(dict(routes=s["routes"], log=d + "/log"), open(d + "/net", "w"))
        x = once(s, d, s["fault"])
        if isinstance(x["rc"], int) and x["rc"] < 0:      # what the next run makes of what this one left
            os.unlink(d + "/log")
            x["next"] = once(s, d, "none")
        return x
    finally:
        shutil.rmtree(d)

def once(s, d, fault):
    def limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if fault != "none":
            resource.setrlimit(resource.RLIMIT_FSIZE, (LIMIT, LIMIT))
    # "crash": a write beyond the limit kills; "refuse": it is an error
    p = subprocess.Popen([crawler(), "-l", str(s["limit"]), "-c", str(s["width"])], cwd=d + "/run", env=dict(os.environ, STUB_NET=d + "/net", RUST_LOG="off", RUST_BACKTRACE="0"),
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limits, restore_signals=fault != "refuse")
    try:
        err = p.communicate(timeout=60)[1].decode(errors="replace")
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(rc="hangs", files={}, asked=[], err="")
    files = {}
    for f in ("succeeded", "failed"):
        for g in glob.glob("%s/run/output/%s/mainnet-*.json" % (d, f)):
            files[f + "/" + os.path.basename(g)] = open(g, errors="replace").read()
    out = [os.path.relpath(x, d) for x in glob.glob(d + "/*") + glob.glob(d + "/run/*") if os.path.basename(x) not in ("run", "net", "log", "output")]
    return dict(rc=p.returncode, files=files, outside=out, err=err[-600:], asked=[json.loads(x) for x in open(d + "/log")] if os.path.exists(d + "/log") else [])

def crawl_differs(s, x, ends, after=()):
    """what of a run none of the ends of the specification explains"""
    if x["rc"] == "hangs":
        return "it does not end"
    if x["outside"]:
        return "it leaves %s beside its folder" % x["outside"]
    if not x["asked"]:
        return "it does not ask for the list: " + x["err"]
    first, rest = x["asked"][0], x["asked"][1:]
    try:
        kind, name, sel = gql.parse(first["body"]["query"], first["body"].get("variables"))
        f = sel["blocks"]
        if first["method"] != "POST" or kind != "query" or list(sel) != ["blocks"] or f["args"] != dict(limit=s["limit"], sortBy=("enum", "RECEIVEDTIME_DESC")) or not {"blockHeight", "stateHash"} <= set(f["sub"]):
            return "it asks %s" % short(sel)
    except (gql.GqlError, KeyError, TypeError) as e:
        return "its question for the list cannot be read: %s" % e
    url = {r["url"]: k + 1 for k, r in enumerate(s["routes"][:-1])}
    asked = [url.get(a["url"], a["url"]) for a in rest]
    seen = {}
    for folder, old in (("succeeded", s["ok0"]), ("failed", s["no0"])):
        seen[folder] = []
        for k in sorted(s["names"]):
            f = "%s/mainnet-%d-%s.json" % (folder, *s["names"][k])
            t = x["files"].get(f)
            if t is None:
                seen[folder].append("none")
            elif t == '{"old":%d}' % (k - 1):
                seen[folder].append("old")
            else:
                try:
                    if not same_json(json.loads(t), {a: b for a, b in s["docs"][k].items() if a != "scheduled_time"} if isinstance(s["docs"][k], dict) else s["docs"][k]):
                        return "the file %s is not the document" % f
                except ValueError:
                    return "the file %s holds %d bytes that are no document" % (f, len(t))
                seen[folder].append("new")
    got = dict(ok=seen["succeeded"], no=seen["failed"], asked=asked, died=isinstance(x["rc"], int) and x["rc"] < 0)
    if ends[0]["asked"] is None:      # that depends on how far the last run came
        got["asked"] = None
    if got not in [{k: e[k] for k in got} for e in ends]:
        e = ends[0]
        return "it ends with succeeded %s, failed %s, having asked for %s%s; the specification ends with e.g. %s, %s, %s%s" % (
            got["ok"], got["no"], asked, " and died" if got["died"] else "", e["ok"], e["no"], e["asked"], " and died" if e["died"] else "")
    if "next" in x:
        what = crawl_differs(s, x["next"], [dict(e, asked=None) for e in after])
        return what and "the next run: " + what
    if not got["died"] and (x["rc"] == 0) != ends[0]["listed"]:
        return "it ends with %s: %s" % (x["rc"], x["err"])
def same_json(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)

def suite_crawler(rep, kinds):
    cases, t = tlc_export("MC_Crawler", {"NameCount": 3, "MaxList": 3} if THOROUGH else {}, timeout=1500)
    rep.spec("MC_Crawler", t)
    groups = {}
    for c in cases:
        groups.setdefault(json.dumps([c[k] for k in ("listed", "list", "outcome", "width", "fault", "ok0", "no0")]), []).append(c)
    keys = sorted(groups)
    if len(keys) > (12000 if THOROUGH else 1000):
        keys = rng("crawler").sample(keys, 12000 if THOROUGH else 1000)
    base = base_block()
    crawler()
    plans = [(scenario(groups[k][0], n, base), groups[k], groups[json.dumps([*json.loads(k)[:4], "none", *json.loads(k)[5:]])]) for n, k in enumerate(keys)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda p: crawl(p[0]), plans))
    rep.ran("MC_Crawler", len(plans), traces=len(plans))
    for (s, ends, after), x in zip(plans, res):
        what = crawl_differs(s, x, ends, after)
        if what and (kinds is None or "crawl" in kinds):
            e = ends[0]
            rep.violation("crawl", "crawling a list of %s that turn out %s, %d at a time, writing: %s, before: %s %s: %s" % (e["list"] if e["listed"] else "nothing", e["outcome"], e["width"], e["fault"], e["ok0"], e["no0"], what),
                          dict(harness="crawler", case={k: v for k, v in s.items() if k != "docs"}, observed=x, expected=[{k: e[k] for k in ("ok", "no", "asked", "died")} for e in ends]))
    rep.sample(dict(crawler={k: v for k, v in plans[len(plans) // 2][0].items() if k not in ("routes", "docs")}))

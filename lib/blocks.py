"""C32: whole block documents moved between their representations (spec/Block.tla)."""
from core import *
from chain import chain, note, THOROUGH
from bp import short
import base64, glob
from text import b58, check

DATA = os.path.join(REPO, "protocol/test-fixtures/src/data")
LAYOUT = os.path.join(REPO, "protocol/layouts/external_transition.json")
VEC = re.compile(r"^Pickles_types?\.Vector\.Vector(\d+)$")

def rd(b, i, neg):
    c = b[i]
    if c < 0x80:
        return c, i + 1
    n = {0xff: 1, 0xfe: 2, 0xfd: 4, 0xfc: 8}[c]
    return int.from_bytes(b[i + 1:i + 1 + n], "little", signed=neg), i + 1 + n
def wr(v, neg):
    """the canonical variable length form of a number"""
    if 0 <= v < 0x80:
        return bytes([v])
    if neg:
        for t, n in ((0xff, 1), (0xfe, 2), (0xfd, 4), (0xfc, 8)):
            if (t != 0xff or v < 0) and -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
                return bytes([t]) + v.to_bytes(n, "little", signed=True)
    for t, n in ((0xfe, 2), (0xfd, 4), (0xfc, 8)):
        if 0 <= v < 1 << (8 * n):
            return bytes([t]) + v.to_bytes(n, "little")

class Node:
    """one place of a document: what the layout says of it, its value, the bytes from s to e (of the tag alone where
    it has a tag) and what is below it (name, Node)"""
    __slots__ = ("kind", "mod", "path", "v", "kids", "s", "e", "end")
    def __init__(self, kind, mod, path, s):
        self.kind, self.mod, self.path, self.s, self.v, self.kids = kind, mod, path, s, None, []
    def all(self):
        yield self
        for _, n in self.kids:
            yield from n.all()

def parse(b):
    t = parse_rule(LAYOUT_RULE(), b, 0, (), "")
    if t.end != len(b):
        raise ToolError("layout walk stops at %d of %d" % (t.end, len(b)))
    return t
def parse_rule(r, b, i, path, mod):
    k = r[0]
    if k == "Reference":
        return parse_rule(r[1][1]["ref_rule"], b, i, path, r[1][1].get("source_module_path", ""))
    n = Node(k, mod, path, i)
    m = VEC.match(mod) if k == "Custom" else None
    below = []
    if k == "Record":
        below = [(f["field_name"], f["field_rule"]) for f in r[1]]
    elif k == "Tuple":
        below = list(enumerate(r[1]))
    elif k == "Sum":
        n.v, i = next(x for x in r[1] if x["index"] == b[i]), i + 1
        below = [("%s%d" % (n.v["ctor_name"], j), x) for j, x in enumerate(n.v["ctor_args"])]
    elif k == "Polyvar":
        t = int.from_bytes(b[i:i + 4], "little") >> 1
        n.v, i = next(x[1] for x in r[1] if x[1]["hash"] == t), i + 4
        below = [("%s%d" % (n.v["polyvar_name"], j), x) for j, x in enumerate(n.v["polyvar_args"])]
    elif k == "Option":
        n.v, i = b[i], i + 1
        below = [("some", r[1])] * n.v
    elif m:
        n.kind = "Vector"
        below = [(j, r[1][0]) for j in range(int(m.group(1)))]
    elif k == "List":
        n.v, i = rd(b, i, False)
        if n.v > len(b) - i:
            raise ToolError("a list longer than the document")
        below = [(j, r[1]) for j in range(n.v)]
    elif k in ("Int", "Int32", "Int64"):
        n.v, i = rd(b, i, True)
    elif k == "String":
        l, i = rd(b, i, False)
        if l > len(b) - i:
            raise ToolError("a string longer than the document")
        n.v, i = b[i:i + l], i + l
    elif k == "Custom":
        n.v, i = b[i:i + 32], i + 32
    elif k in ("Bool", "Char", "Unit"):
        n.v, i = b[i], i + 1
    else:
        raise ToolError("layout rule %s at %s" % (k, path))
    n.e = i
    for name, x in below:
        c = parse_rule(x, b, i, path + (name,), "")
        n.kids.append((name, c))
        i = c.end
    if m:
        n.s, n.e, i = i, i + 1, i + 1      # the unit that ends a vector
    n.end = i
    return n

_layout = []
def LAYOUT_RULE():
    if not _layout:
        _layout.append(json.load(open(LAYOUT))["bin_prot_rule"])
    return _layout[0]

def abstract(path):
    return "/".join("*" if isinstance(x, int) else re.sub(r"\d+$", "", x) if x[0].isupper() else x for x in path if x != "t")

def fixtures():
    """the block documents of the repository, as bytes"""
    out = {}
    for f in sorted(glob.glob(DATA + "/*")):
        n = os.path.basename(f)
        if os.path.isfile(f) and not n.endswith("json") and "vk-" not in n:
            raw = open(f, "rb").read()
            out[n] = bytes.fromhex(raw.decode()) if re.match(rb"^[0-9a-fA-F\s]*$", raw) else raw
    return out

class Gen:
    """documents of the layout: every leaf and choice drawn by `draw(path, kind, module, options)`"""
    def __init__(self, draw):
        self.draw = draw
    def rule(self, r, path=(), mod=""):
        k, d = r[0], self.draw
        if k == "Reference":
            return self.rule(r[1][1]["ref_rule"], path, r[1][1].get("source_module_path", ""))
        if k in ("Record", "Tuple"):
            parts = [(f["field_name"], f["field_rule"]) for f in r[1]] if k == "Record" else enumerate(r[1])
            return b"".join(self.rule(x, path + (n,)) for n, x in parts)
        if k == "Sum":
            s = d(path, "ctor", mod, r[1])
            return bytes([s["index"]]) + b"".join(self.rule(x, path + ("%s%d" % (s["ctor_name"], n),)) for n, x in enumerate(s["ctor_args"]))
        if k == "Polyvar":
            s = d(path, "poly", mod, [x[1] for x in r[1]])
            return (s["hash"] * 2 + 1 & 0xffffffff).to_bytes(4, "little") + b"".join(
                self.rule(x, path + ("%s%d" % (s["polyvar_name"], n),)) for n, x in enumerate(s["polyvar_args"]))
        if k == "Option":
            return b"\1" + self.rule(r[1], path + ("some",)) if d(path, "option", mod, [0, 1]) else b"\0"
        m = VEC.match(mod) if k == "Custom" else None
        if m:
            return b"".join(self.rule(r[1][0], path + (x,)) for x in range(int(m.group(1)))) + b"\0"
        if k == "List":
            n = d(path, "list", mod, None)
            return wr(n, False) + b"".join(self.rule(r[1], path + (x,)) for x in range(n))
        v = d(path, "big" if k == "Custom" else k, mod, None)
        return v


# ---------------------------------------------------------------- leaves and their JSON form
def kind_of(n):
    """the kind of leaf, in the words of spec/Block.tla"""
    p = [x for x in n.path if x != "t"]
    if n.kind == "Int":
        return "version" if p[-1] == "version" else "proto"
    if n.kind == "Int32":
        return "until" if p[-1] == "valid_until" else "u32"
    if n.kind == "Int64":
        return "i64" if "manual" in n.mod else "nano" if p[-1] in ("fee", "magnitude") else "u64"
    if n.kind == "String":
        return {"sok_digest": "digest", "memo": "memo", "aux_hash": "aux", "pending_coinbase_aux": "pcaux", "last_vrf_output": "vrf"}[p[-1]]
    if n.kind == "Custom":
        if p[-1] == "x":
            return "key"
        if "signature" in p:
            return "signature"
        return "hash" if n.mod == "Snark_params.Tick" else "field"
    return n.kind.lower()

HASHES = [("coinbase", 12, r"/pending_coinbase_hash$"), ("seed", 13, r"/seed$"), ("stackdata", 23, r"_stack_state/(source|target)/data(_stack)?$"),
          ("stackhash", 24, r"/(init|curr)$"), ("ledger", 5, r"ledger_hash$|/ledger/hash$|/statement/(source|target)$|^delta_transition_chain_proof/"),
          ("state", 16, r"(previous|genesis)_state_hash$|_checkpoint$")]
def base58(version, b):
    return b58(check(bytes([version]) + b))
def names(path):
    return "/".join(str(x) for x in path if x != "t")
class Form:
    """a place of a json document: its kind in the words of spec/MC_BlockJson.tla and its value, or what is below it"""
    __slots__ = ("kind", "v", "kids", "optional", "open", "path")
    def __init__(self, kind, v=None, kids=None, open=False):
        self.kind, self.v, self.kids, self.optional, self.open, self.path = kind, v, kids, False, open, ""
    def plain(self):
        if self.kids is None:
            return self.v
        if self.kind == "record":
            return {k: c.plain() for k, c in self.kids}
        return ([self.v] if self.kind == "enum" else []) + [c.plain() for _, c in self.kids]
    def all(self, held="root", path=""):
        self.path = path
        yield self, held
        h = dict(record="field", list="item", tuple="part", enum="argument").get(self.kind)
        for k, c in self.kids or []:
            yield from c.all(h, path + "/" + (str(k) if h == "field" else "*" if h != "argument" else "%s%s" % (self.v, k)))
    def text(self, at, repl):
        """the document as text, with the place `at` replaced by what repl makes of its pieces"""
        own = json.dumps(self.v)
        if self.kids is None:
            s = [own]
        elif self.kind == "record":
            s = [json.dumps(k) + ":" + x if x is not None else None for k, c in self.kids for x in c.text(at, repl)]
        else:
            s = ([own] if self.kind == "enum" else []) + [x for _, c in self.kids for x in c.text(at, repl)]
        o, e = ("", "") if self.kids is None else "{}" if self.kind == "record" else "[]"
        join = lambda s: o + ",".join(x for x in s if x is not None) + e
        return repl(self, s, join) if self is at else [join(s)]
def text_form(v):
    return Form("text", v)
def form_of(n, data):
    k, p = n.kind, names(n.path)
    go = lambda c: form_of(c, data)
    if k == "Record":
        f = dict(n.kids)
        if set(f) == {"version", "t"}:
            return go(f["t"])
        if set(f) == {"x", "is_odd"}:
            return text_form(base58(203, b"\1\1" + f["x"].v + bytes([f["is_odd"].v])))
        if "fee_excess_l" in f:
            return Form("tuple", kids=[(i, Form("record", kids=[("token", go(f["fee_token_" + s])), ("amount", go(f["fee_excess_" + s]))])) for i, s in enumerate("lr")])
        return Form("record", kids=[(a, go(c)) for a, c in n.kids])
    if k in ("Tuple", "Vector", "List"):
        if p.endswith("/signature"):
            return text_form(base58(154, b"\1" + n.kids[0][1].v + n.kids[1][1].v))
        return Form("list" if k == "List" else "tuple", kids=[(i, go(c)) for i, (_, c) in enumerate(n.kids)])
    if k == "Sum" and n.v["ctor_name"] == "Set_delegate":       # its arguments have names
        return Form("enum", "Set_delegate", [(0, Form("record", kids=list(zip(("delegator", "new_delegate"), (go(c) for _, c in n.kids)))))])
    if k == "Sum":
        return Form("enum", n.v["ctor_name"], [(i, go(c)) for i, (_, c) in enumerate(n.kids)])
    if k == "Polyvar":
        below = [go(c) for _, c in n.kids]
        below = [c for _, c in below[0].kids] if n.kids and n.kids[0][1].kind == "Tuple" else below
        return Form("enum", n.v["polyvar_name"], list(enumerate(below)))
    if k == "Option":
        f = go(n.kids[0][1]) if n.v else text_form(None)
        f.optional = True
        return f
    w = kind_of(n)
    if w in ("u32", "u64"):
        return text_form(str(n.v))
    if w == "until":
        return text_form(str(n.v % 2 ** 32))
    if w == "nano":
        t = "%d.%09d" % divmod(n.v, 10 ** 9)
        return text_form(t.rstrip("0").rstrip("."))
    if w == "i64":
        return Form("number", n.v)
    if w == "bool":
        return Form("bool", bool(n.v))
    if w == "unit":
        return Form("null")
    if w == "char":
        return text_form(chr(n.v))
    if w == "digest":
        return text_form(n.v.decode())
    if w in ("memo", "aux", "pcaux"):
        return text_form(base58(dict(memo=20, aux=14, pcaux=15)[w], n.v))
    if w == "vrf":
        return text_form(base64.urlsafe_b64encode(n.v).decode())
    if w == "field":
        return text_form("0x" + n.v.hex())
    if w == "hash":
        return text_form(base58(next(v for _, v, r in HASHES if re.search(r, p)), b"\1" + n.v))
    raise ToolError("no json form for %s at %s" % (w, p))
def block_form(t, b):
    """the JSON form of a whole document"""
    d = dict(dict(t.kids)["t"].kids)
    proof = d["protocol_state_proof"]
    return Form("record", kids=[(a, text_form(base64.urlsafe_b64encode(b[proof.s:proof.end]).decode()) if d[a] is proof else form_of(d[a], b))
                                for a in ("protocol_state", "protocol_state_proof", "staged_ledger_diff", "delta_transition_chain_proof")])

# ---------------------------------------------------------------- values of the classes of spec/Block.tla
FP = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
NUM = dict(zero=[0], one=[1], two=[2], b127=[126, 127], b128=[128, 255, 256], b15=[32767, 32768], b16=[65535, 65536], b31=[2 ** 31 - 1], b32=[2 ** 32 - 1, 2 ** 32],
           b53=[2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1], b63=[2 ** 63 - 1], minus=[-1, -129], least=[-2 ** 63], round=[10 ** 9, 12 * 10 ** 8, 720 * 10 ** 9], all=[-1], over=[2 ** 32, 2 ** 33 + 5])
TEXTS = dict(memo=("x", 34), aux=("x", 32), pcaux=("x", 32), vrf=("x", 32))
_keys = []
def keys():
    if not _keys:
        _keys.extend(sorted({n.v for b in fixtures().values() if len(b) < 50000 for n in parse(b).all() if n.path[-1:] == ("x",)}))
    return _keys
def string(b):
    return wr(len(b), False) + b
def small(R):
    return R.randbytes(31) + bytes([R.randrange(0x3f)])
def value(kind, cls, R, n=None):
    """the bytes of a leaf of that kind and class; those of the tag where there is more than the tag"""
    if kind in ("version", "proto", "u32", "until", "u64", "nano", "i64"):
        if cls == "other":
            return wr(R.choice([2, 3, 127, 128, 2 ** 31]), True)
        if kind in ("u32", "until"):
            if cls == "b32":
                return wr(R.choice([2 ** 31, 2 ** 32 - 1]), True)
            if cls in ("least", "minus"):
                return wr(-2 ** 31 if cls == "least" else R.choice([-2, -129, -2 ** 31 + 1]), True)
        return wr(R.choice(NUM[cls]), True)
    if kind in ("bool", "unit", "vector"):
        return bytes([dict(no=0, yes=1, two=R.choice([2, 255]), unit=0, one=R.choice([1, 255]))[cls]])
    if kind == "char":
        return dict(low=bytes([R.randrange(32)]), letter=b"k", quote=R.choice([b'"', b"\\"]), b127=b"\x7f", b128=b"\x80", b255=b"\xff")[cls]
    if kind in ("digest", "memo", "aux", "pcaux", "vrf"):
        if cls == "cut":
            return b"\xfc" + (1 << 40).to_bytes(8, "little")
        if kind == "digest" or cls != "broken":
            return string(dict(empty=b"", ascii=b"hello", quote=b'"\\\n\0', utf8="é☃".encode(), short=b"abc", b32=R.randbytes(32), long=R.randbytes(R.choice([127, 128, 300])), broken=b"\xff\x80")[cls])
        return string(R.randbytes(20) + b"\xff\xc0")
    if kind in ("hash", "field"):
        return dict(zero=bytes(32), one=b"\1" + bytes(31), any=small(R), ones=b"\xff" * 32)[cls]
    if kind == "key":
        return R.choice(keys()) if cls == "real" else dict(zero=bytes(32), any=small(R), over=R.choice([FP.to_bytes(32, "little"), b"\xff" * 32]))[cls]
    if kind == "signature":
        return dict(zero=bytes(32), any=small(R), over=b"\xff" * 32)[cls]
    if kind == "option":
        return bytes([R.choice([2, 255])])
    if kind == "list":
        return b"\xfc" + (2 ** 62 - 1).to_bytes(8, "little")
    if kind == "sum":
        return b"\xff"
    if kind == "polyvar":
        return (R.getrandbits(31) * 2 + 1).to_bytes(4, "little")
    raise ToolError("no value for %s %s" % (kind, cls))
STRUCTURE = {"option", "list", "sum", "polyvar"}
def supported(mod, ctors):
    """the choices this code has a type for"""
    if mod.startswith("User_command.Poly"):
        return [c for c in ctors if c["ctor_name"] == "Signed_command"]
    if mod.startswith("Signed_command_payload.Body"):
        return [c for c in ctors if c["ctor_name"] in ("Payment", "Stake_delegation")]
    return ctors

# ---------------------------------------------------------------- documents
def plain_classes():
    """the classes every representation holds, from the exported cases"""
    if not _plain:
        for c in walks()[0]:
            (l,) = c["doc"]
            good = all(h["verdict"] == "ok" for h in c["log"]) and not c["lost"]
            _plain.setdefault(l["kind"], {}).setdefault(l["class"], []).append(good)
        for k in _plain:
            _plain[k] = [c for c, g in _plain[k].items() if all(g)]
    return _plain
_plain, _walks = {}, []
def walks():
    if not _walks:
        _walks.append(tlc_export("MC_Block", {}, timeout=900))
    return _walks[0]
class Draw:
    """draws documents of plain leaves, the choices least used first"""
    def __init__(self, R, foreign=0):
        self.R, self.used, self.foreign = R, {}, foreign
    def pick(self, path, options):
        key = abstract(path)
        u = self.used.setdefault(key, {})
        low = min(u.get(o, 0) for o in options)
        o = self.R.choice([o for o in options if u.get(o, 0) == low])
        u[o] = u.get(o, 0) + 1
        return o
    def __call__(self, path, kind, mod, options):
        R = self.R
        if kind in ("ctor", "poly"):
            s = options if kind == "poly" or self.foreign else supported(mod, options)
            names_ = {x.get("ctor_name", x.get("polyvar_name")): x for x in s}
            return names_[self.pick(path, sorted(names_))]
        if kind == "option":
            return 0 if "proposed_protocol_version_opt" in path else self.pick(path, [0, 1])
        if kind == "list":
            n = self.pick(path, [0, 1, 2])
            return n if R.random() < .2 or path[-1] not in ("completed_works",) else min(n, 1)
        n = Node({"big": "Custom"}.get(kind, kind), mod, path, 0)
        k = kind_of(n)
        if k == "proto":
            return wr(2 if path[-1] == "major" else 0, True)
        return value(k, self.pick(path, plain_classes()[k]), R)
    def document(self):
        return Gen(self).rule(LAYOUT_RULE())

def positions(docs):
    """abstract place -> kind, [(document, node)]"""
    out = {}
    for d, t in enumerate(docs):
        for n in t.all():
            k = {"Sum": "sum", "Polyvar": "polyvar", "Option": "option", "List": "list", "Vector": "vector"}.get(n.kind)
            if n.kind in ("Record", "Tuple"):
                continue
            k = k or kind_of(n)
            out.setdefault((abstract(n.path), k), []).append((d, n))
    return out
def same_but_proto(a, b):
    """the same document but for the versions of the protocol"""
    def cut(x):
        t = parse(x)
        f = dict(dict(t.kids)["t"].kids)
        c, p = f["current_protocol_version"], f["proposed_protocol_version_opt"]
        s, e = sorted([(c.s, c.end), (p.s, p.end)])
        return x[:s[0]] + x[s[1]:e[0]] + x[e[1]:]
    try:
        return cut(a) == cut(b)
    except Exception:
        return False
def store(i, b):
    f = os.path.join(scratch(), "doc%s.bin" % i)
    open(f, "wb").write(b)
    return f
def patched(b, patch):
    for s, e, h in patch:
        b = b[:s] + bytes.fromhex(h) + b[e:]
    return b
def difference(a, b, p=""):
    if type(a) is not type(b):
        return [(p, a, b)]
    if isinstance(a, dict):
        return [d for k in {**a, **b} for d in (difference(a[k], b[k], p + "/" + k) if k in a and k in b else [(p + "/" + k, k in a, k in b)])]
    if isinstance(a, list):
        return [(p, len(a), len(b))] if len(a) != len(b) else [d for i in range(len(a)) for d in difference(a[i], b[i], p + "/%d" % i)]
    return [] if a == b else [(p, a, b)]

def judge(rep, kinds, o, run, path, log, lost, start, about, leaf=None):
    """a walk of the code against the walk of the specification; start gives the bytes of the document"""
    def bad(kind, what):
        case = {k: v for k, v in o.items() if k not in ("in", "paths")}
        b = start()
        note(rep, kinds, kind, "%s: on the way wire>%s: %s" % (about, ">".join(path), what),
             dict(case, **({"doc": b.hex(), "patch": []} if isinstance(b, bytes) else {"json": b}), paths=[path]), run)
    # the known findings, probed on their own: these leaves get further than they should, or not so far
    untagged = leaf and leaf[0] == "version" and leaf[1] in ("other", "zero")
    off = leaf and leaf in (("key", "over"), ("signature", "over"))
    for i, w in enumerate(log):
        v = w["verdict"]
        if i >= len(run):
            return
        h = run[i]
        if h["st"] == "PANIC" and off and v == "refuse":
            return
        if h["st"] == "ok" and untagged and v == "refuse":
            continue
        if h["st"] == "PANIC":
            return bad("panic", "the step to %s panics (specification: %s)" % (w["to"], v))
        if h["st"] == "refused":
            if v == "ok":
                return bad("refused", "the step to %s is refused: %s" % (w["to"], h["why"][:200]))
            return
        if v == "refuse":
            return bad("taken", "the step to %s is taken, the specification refuses it" % w["to"])
    h = run[-1]
    if path[-1] == "wire" and not h["same"]:
        if not lost or not same_but_proto(start(), bytes.fromhex(h["wire"])):
            bad("changed", "the document comes back changed")

def suite_blocks(rep, kinds):
    cases, t = walks()
    rep.spec("MC_Block", t)
    R = rng("blocks")
    by = {}
    for c in cases:
        (l,) = c["doc"]
        by.setdefault((l["kind"], l["class"]), []).append(c)
    routes = sorted({tuple(h["to"] for h in c["log"]) for c in cases if all(h["verdict"] == "ok" for h in c["log"])})
    # documents of plain leaves that together hold every choice
    draw = Draw(R)
    raw = [draw.document() for _ in range(400 if THOROUGH else 60)]
    trees = [parse(b) for b in raw]
    real = [(n, b) for n, b in fixtures().items() if len(b) < 50000]
    ops, plans = [], []
    for i, b in enumerate(raw + [b for _, b in real]):
        rs = routes if THOROUGH or i < 20 else R.sample(routes, 4)
        if i >= len(raw):     # their digests are bytes that are no text
            rs = [r for r in rs if "json" not in r]
        ops.append(dict(op="document", **{"in": store("g%d" % i, b)}, patch=[], paths=[list(r) for r in rs]))
        plans.append([([dict(to=x, verdict="ok") for x in r], False, "generated block %d" % i if i < len(raw) else "block " + real[i - len(raw)][0][:12]) for r in rs])
    # every class of value at every place
    base = store("b", b"")
    places = positions(trees[:200 if THOROUGH else 60])
    files = {}
    turn = {}
    for (a, kind), at in sorted(places.items()):
        for (k, cls), cs in sorted(by.items()):
            if k != kind or (k in STRUCTURE and (cls in ("none", "some", "few", "known"))) or cls == "unsupported":
                continue
            d, n = R.choice(at)
            if d not in files:
                files[d] = store("p%d" % d, raw[d])
            if not THOROUGH:
                j = turn[(k, cls)] = turn.get((k, cls), -1) + 1
                cs = [cs[(2 * j + x) % len(cs)] for x in range(min(2, len(cs)))]
            v = value(k, cls, R, n)
            ops.append(dict(op="document", **{"in": files[d]}, patch=[[n.s, n.e, v.hex()]], paths=[[h["to"] for h in c["log"]] for c in cs]))
            plans.append([(c["log"], c["lost"], "block with the %s %s at %s" % (cls, kind, a), (k, cls)) for c in cs])
    res = run_cases(chain(), ops, par=8)
    rep.ran("MC_Block", len(ops), traces=sum(len(o["paths"]) for o in ops))
    for o, p, x in zip(ops, plans, res):
        if not x.get("ok"):
            note(rep, kinds, "panic", p[0][2] + ": " + short(x), dict(o, doc=patched(open(o["in"], "rb").read(), o["patch"]).hex(), patch=[]), x)
            continue
        for path, (log, lost, about, *leaf), run in zip(o["paths"], p, x["runs"]):
            judge(rep, kinds, o, run, path, log, lost, lambda: patched(open(o["in"], "rb").read(), o["patch"]), about, *leaf)

VALUES = dict(null="null", true="true", zero="0", minus="-1", fraction="1.5", huge="1e400", empty='""', word='"x!"', emptylist="[]", nulls="[null]", emptyrecord="{}",
              foreign='{"x":null}', deep="[" * 200 + "]" * 200)
def change(c):
    """what a change makes of a place: the texts that stand there afterwards"""
    def repl(f, s, join):
        if c == "gone":
            return [None]
        if c == "twice":
            return [join(s)] * 2
        if c == "more":
            return [join(s + (['"x":null'] if f.kind == "record" else ['"x!"']))]
        if c in ("short", "long"):
            t = json.loads(s[0])
            return [json.dumps(t[:-2] if c == "short" else t + t[-2:])]
        if c == "nested":
            return ["[%s]" % join(s)]
        if c == "nameonly":
            return [s[0]]
        if c == "named":
            return ["{%s:%s}" % (s[0], s[1] if len(s) == 2 else "[%s]" % ",".join(s[1:]))]
        if c == "unwrapped":
            return ["[%s]" % ",".join(s[1:]) if len(s) != 2 else s[1]]
        if c == "reversed":
            return [join(s[1:] + s[:1])]
        return [VALUES[c]]
    return repl
OTHERWISE = ("short", "long", "nested", "nameonly", "named", "unwrapped", "reversed")
def place_kind(f):
    """the kind of place of the specification"""
    t = f.text(None, None)[0] if f.kind == "text" else ""
    return "hex" if t.startswith('"0x') else "coded" if len(t) > 40 and not t.strip('"').isdigit() else f.kind
def two(f):
    return any(x.kind == "enum" and x.v == "Two" and x.path.endswith("coinbase") for x, _ in f.all())

def suite_blockform(rep, kinds):
    """the JSON form of documents against an oracle of its own, both ways"""
    cases, t = walks()
    rep.spec("MC_Block", t)
    R = rng("forms")
    draw = Draw(R)
    ops, wants = [], []
    def asks(kind, o, w):
        ops.append(dict(o, op="document", kind=kind))
        wants.append(w)
    docs = [draw.document() for _ in range(600 if THOROUGH else 90)] + [b for b in fixtures().values() if len(b) < 50000]
    for i, b in enumerate(docs):
        n = parse(b)
        b = patched(b, sorted([[x.s, x.e, "03736f6b"] for x in n.all() if x.kind == "String" and "sok_digest" in x.path and kind_of(x) == "digest" and not text(x.v)], reverse=True))
        f = block_form(parse(b), b)
        if two(f):         # there is no agreed form of it
            continue
        asks("write", dict(doc=b.hex(), patch=[], show=True, paths=[["typed", "json"], ["block", "json"]]), f.plain())
        asks("read", dict(json=f.text(None, None)[0], paths=[["typed", "wire"], ["block", "wire"]]), b)
    for g in sorted(glob.glob(DATA + "/*.json")):
        try:
            j = json.load(open(g))
        except ValueError:
            continue
        if "protocol_state" in j and "genesis" not in os.path.basename(g):
            j.pop("scheduled_time", None)
            asks("keep", dict(json=json.dumps(j), paths=[["typed", "json"], ["block", "json"], ["typed", "block", "wire", "typed", "json", "block", "json"]]), os.path.basename(g))
    res = run_cases(chain(), ops, par=8)
    rep.ran("MC_Block", len(ops), traces=sum(len(o["paths"]) for o in ops))
    for o, w, x in zip(ops, wants, res):
        for path, run in zip(o["paths"], x.get("runs", [[dict(st=short(x))]] * 9)):
            h, where = run[-1], "%s>%s" % ("json" if "json" in o else "wire", ">".join(path))
            if h["st"] != "ok":
                what = "%s: %s %s" % (where, h["st"], h.get("why", ""))
            elif o["kind"] == "write":
                d = difference(w, h["json"])
                what = d and "%s: at %s the form should be %.80r and is %.80r" % (where, *d[0])
            elif o["kind"] == "read":
                what = not h["same"] and not same_but_proto(w, bytes.fromhex(h["wire"])) and where + ": the document read is not the one written"
            else:
                what = not h["same"] and "%s: the form of %s comes back changed" % (where, w)
            if what:
                note(rep, kinds, "form", what, dict(o, paths=[path]), h, None)
def text(b):
    try:
        b.decode()
        return True
    except ValueError:
        return False

def suite_blockjson(rep, kinds):
    """JSON with one place changed"""
    cases, t = tlc_export("MC_BlockJson", {}, timeout=600)
    rep.spec("MC_BlockJson", t)
    want = {(c["place"]["kind"], c["place"]["optional"], c["place"]["bare"], c["place"]["held"], c["change"]): c["verdict"] for c in cases}
    changes = sorted({c["change"] for c in cases})
    R = rng("json")
    draw = Draw(R)
    seen, ops, plans = {}, [], []
    for i in range(60 if THOROUGH else 30):
        b = draw.document()
        root = block_form(parse(b), b)
        if two(root):
            continue
        for f, held in list(root.all()):
            key = (f.path, f.kind, f.optional, f.v if f.kind == "enum" else None)
            if seen.get(key, 0) >= (3 if THOROUGH else 1):
                continue
            seen[key] = seen.get(key, 0) + 1
            pk, always = place_kind(f), ("null", "emptylist") + OTHERWISE
            for c in changes if THOROUGH else [c for c in changes if c in always] + R.sample([c for c in changes if c not in always], 7):
                v = want.get((pk, f.optional, f.kind == "record" and all(k.optional for _, k in f.kids), held, c))
                if v is None or c in ("short", "long") and f.v in (None, "") or c == "reversed" and not f.kids:
                    continue
                ops.append(dict(op="document", json=root.text(f, change(c))[0], paths=[["typed", "json", "typed", "json"], ["block", "json", "block", "json"]]))
                plans.append((v, c, f.path))
            if f.kind == "enum":
                for s in ("Nobody", ""):
                    ops.append(dict(op="document", json=root.text(f, lambda f, s_, join: [join([json.dumps(s)] + s_[1:])])[0], paths=[["typed"], ["block"]]))
                    plans.append(("refuse", "unknown name", f.path))
    res = run_cases(chain(), ops, par=8)
    rep.ran("MC_BlockJson", len(ops), traces=2 * len(ops))
    for o, (v, c, p), x in zip(ops, plans, res):
        for path, run in zip(o["paths"], x.get("runs", [[dict(st=short(x))]] * 2)):
            about = "JSON with '%s' at %s read as %s: " % (c, p, path[0])
            st = [h["st"] for h in run]
            what = ("it is taken, the specification refuses it" if v == "refuse" and st[0] == "ok" else
                    "it is refused: " + run[0].get("why", "") if v == "ok" and st[0] == "refused" else
                    "%s at step %d" % (run[-1]["st"], len(st)) if st[-1] not in ("ok", "refused") else
                    "what was written is refused: " + run[-1].get("why", "") if st[-1] == "refused" and len(st) > 1 else
                    "what was written reads back as something else" if len(st) == 4 and not run[3]["again"] else None)
            if what:
                note(rep, kinds, "panic" if st[-1] not in ("ok", "refused") else "json", about + what, dict(o, paths=[path]), run, v)

def values(b):
    """what a document says, whatever way its numbers are written; None if it is no document of the layout"""
    try:
        t = parse(b)
    except (Exception, StopIteration):
        return None
    out = []
    for n in t.all():
        if n.kind in ("Bool", "Option") and n.v > 1 or n.kind == "Unit" and n.v or n.kind == "Vector" and b[n.s]:
            return None
        out.append((n.path, n.v["index" if n.kind == "Sum" else "hash"] if n.kind in ("Sum", "Polyvar") else n.v))
    return out
def suite_blockbytes(rep, kinds):
    """documents with bytes changed: refused, or the document they are"""
    R = rng("bytes")
    cases, t = walks()
    rep.spec("MC_Block", t)
    draw = Draw(R)
    ops, starts = [], []
    for i in range(60 if THOROUGH else 12):
        b = draw.document()
        f = store("x%d" % i, b)
        nodes = list(parse(b).all())
        for j in range(800 if THOROUGH else 200):
            way = j % 4
            if way == 0:                       # one byte at random
                p = R.randrange(len(b))
                patch = [[p, p + 1, bytes([R.choice([b[p] ^ (1 << R.randrange(8)), R.randrange(256)])]).hex()]]
            elif way == 1:                     # the first byte of a place
                n = R.choice(nodes)
                if n.s == n.e:
                    continue
                patch = [[n.s, n.s + 1, bytes([R.choice([0, 1, 2, 3, 0x7f, 0x80, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, (b[n.s] + 1) % 256])]).hex()]]
            elif way == 2:                     # the rest, or a piece, missing
                s = R.randrange(len(b))
                patch = [[s, len(b) if j % 8 < 4 else min(len(b), s + R.choice([1, 2, 32])), ""]]
            else:                              # bytes too many
                s = R.choice([len(b), R.choice(nodes).s])
                patch = [[s, s, R.randbytes(R.choice([1, 2, 8])).hex() if j % 8 < 4 else "00"]]
            ops.append(dict(op="document", **{"in": f}, patch=patch, paths=[["typed", "wire"]]))
            starts.append(b)
    res = run_cases(chain(), ops, par=8)
    rep.ran("MC_Block", len(ops), traces=len(ops))
    for o, b, x in zip(ops, starts, res):
        m = patched(b, o["patch"])
        run = x.get("runs", [[dict(st=short(x))]])[0]
        what = None
        if run[-1]["st"] not in ("ok", "refused"):
            what = "step %d: %s" % (len(run), run[-1]["st"])
        elif run[0]["st"] == "ok":
            v = values(m)
            if v is None:
                what = "bytes that are no block document are taken"
            elif run[-1]["st"] == "refused":
                what = "a document that was read cannot be written: " + run[-1]["why"]
            elif not run[1]["same"] and values(bytes.fromhex(run[1]["wire"])) != v:
                what = "the document comes back changed"
        elif values(m) is not None and m == b:
            what = "a block document is refused"
        if what:
            note(rep, kinds, "bytes", "block document with bytes %d..%d replaced by '%s': %s" % (*o["patch"][0][:2], o["patch"][0][2], what), dict(o, doc=b.hex(), **{"in": None}), run)

"""C39: the first blocks of networks, and the chains that start with them (spec/Genesis.tla)."""
from core import *
from chain import chain, note, THOROUGH
from bp import short
import blocks

STATE = ("protocol_state",)
BODY = STATE + ("body",)
SPECIAL = {("state", "previous_state_hash"): STATE + ("previous_state_hash",), ("state", "genesis_state_hash"): BODY + ("genesis_state_hash",),
           ("consensus_state", "slot_number"): BODY + ("consensus_state", "curr_global_slot", "slot_number"),
           ("consensus_state", "slots_per_epoch"): BODY + ("consensus_state", "curr_global_slot", "slots_per_epoch"),
           ("blockchain_state", "pending_coinbase_hash"): BODY + ("blockchain_state", "staged_ledger_hash", "pending_coinbase_hash")}
def place(p):
    """where the part of spec/Genesis.tla is in a block document"""
    p = tuple(p)
    if p in SPECIAL:
        return SPECIAL[p]
    g, f = p
    if g == "block":
        return (f,)
    if g.endswith("epoch_data"):
        return BODY + ("consensus_state", g) + (("ledger", f) if f in ("hash", "total_currency") else (f,))
    if g == "blockchain_state" and f in ("ledger_hash", "aux_hash", "pending_coinbase_aux"):
        return BODY + (g, "staged_ledger_hash", "non_snark", f)
    return BODY + (g, f)
def index(b):
    """the outermost node at every place of a document"""
    out = {}
    for n in blocks.parse(b).all():
        out.setdefault(tuple(x for x in n.path if x != "t"), n)
    return out
def leaf(n):
    """the node below the version wrappers"""
    while n.kind == "Record" and {k for k, _ in n.kids} == {"version", "t"}:
        n = dict(n.kids)["t"]
    return n
class Donors:
    def __init__(self):
        self.base = blocks.fixtures()["genesis-3NKeMoncuHab5ScarV5ViyF16cJPT4taWNSaTLS64Dp67wuXigPZ.hex"]
        self.at = index(self.base)
        self.other = next(b for n, b in blocks.fixtures().items() if n.startswith("3N") and len(b) < 50000)
        self.oat = index(self.other)
    def bytes_of(self, b, at, p):
        n = at[place(p)]
        s = min(x.s for x in n.all())
        return s, n.end
    def put(self, p, v, R):
        """the bytes that make the part have that value"""
        p = tuple(p)
        n = self.at[place(p)]
        l = leaf(n)
        if p == ("block", "proposed_protocol_version_opt") or p == ("block", "current_protocol_version"):
            pre = b"\1" if p[1].startswith("proposed") else b""
            s, e = self.bytes_of(self.base, self.at, p)
            old = self.base[s:e]
            if p[1].startswith("proposed"):
                c = self.bytes_of(self.base, self.at, ("block", "current_protocol_version"))
                one = self.base[c[0]:c[1]]
                return s, e, (pre + one if v else old)
            return s, e, (old[:-3] + bytes([3, 1, 2]) if v else old)
        if l.kind in ("Int32", "Bool"):
            return l.s, l.e, (bytes([v]) if l.kind == "Bool" else blocks.wr(v, True))
        if not v:
            return n.s, n.s, b""
        if l.kind == "Int64":
            return l.s, l.e, blocks.wr(R.choice([0, 1, 10 ** 9, 2 ** 53 + 1, l.v + 1]), True)
        if l.kind == "String":
            return l.s, l.e, blocks.string(R.randbytes(32))
        if l.kind == "Custom":
            return l.s, l.e, blocks.small(R)
        if p[1] in ("block_stake_winner", "block_creator", "coinbase_receiver"):
            x = next(m for m in l.all() if m.path[-1] == "x")
            return x.s, x.end, R.choice([k for k in blocks.keys() if k != x.v])
        if p[1] == "sub_window_densities":
            i = R.randrange(11)
            m = leaf(self.at[place(p) + (i,)])
            return m.s, m.e, blocks.wr(R.choice([0, 2, 5]), True)
        # a larger part, as another block has it
        s, e = self.bytes_of(self.base, self.at, p)
        os_, oe = self.bytes_of(self.other, self.oat, p)
        if self.other[os_:oe] == self.base[s:e]:
            raise ToolError("no other value for %s" % (p,))
        return s, e, self.other[os_:oe]
def differ(a, b):
    """the places at which two documents differ"""
    try:
        x, y = index(a), index(b)
    except Exception as e:
        return "not a document: %s" % e
    f = lambda n: (n.kind, str(n.v), len(n.kids))
    d = [k for k in list(x) if k not in y or f(x[k]) != f(y[k]) or (not x[k].kids and a[x[k].s:x[k].e] != b[y[k].s:y[k].e])]
    return ", ".join(blocks.names(k) for k in d[-6:]) or "somewhere"

def suite_genesis(rep, kinds):
    cases, t = tlc_export("MC_Genesis", {"MaxOdd": 2} if THOROUGH else {}, timeout=1500)
    rep.spec("MC_Genesis", t)
    D = Donors()
    # the built-in networks
    (pinned,) = [c["berkeley"][0] for c in cases if c["berkeley"]]
    nets = [dict(op="genesis", net=n, want=pinned) for n in ("mainnet", "devnet", "berkeley")]
    res = run_cases(chain(), nets)
    rep.ran("networks", len(nets), traces=len(nets))
    for o, x in zip(nets, res):
        if not x.get("ok"):
            note(rep, kinds, "network", "the first block of %s: %s" % (o["net"], short(x)), o, x)
        elif o["net"] == "berkeley":
            d = {k: (v, x["state"].get(k)) for k, v in pinned.items() if x["state"].get(k) != v}
            if d:
                note(rep, kinds, "network", "the first state of berkeley is not the published one (published, built in): %s" % short(d), o, d, pinned)
        elif x["first"] != D.base.hex():
            note(rep, kinds, "network", "the first block of %s is not the published one, at: %s" % (o["net"], x["first"] if isinstance(x["first"], dict) else differ(D.base, bytes.fromhex(x["first"]))), o, x, D.base.hex())
    # configurations
    ops, plans = [], []
    for n, c in enumerate(cases):
        R = rng("genesis%d" % n)
        odd = [(tuple(p), v) for p, v in c["odd"]]
        parts = {p: D.put(p, v, R) for p, v in odd}
        def doc(ps):
            b = bytearray(D.base)
            for s, e, x in sorted(ps, reverse=True):
                b[s:e] = x
            return bytes(b)
        # what the specification says of the parts; the rest is as published
        first = {tuple(p): v for p, v in c["first"]}
        carried = {p for p, v in odd if first[p] == v and p in parts}
        want = doc([parts[p] if p in carried else D.put(p, v, R) for p, v in first.items()])
        ops.append(dict(op="genesis", doc=doc(parts.values()).hex(), w=c["w"], push=[l["push"] for l in c["log"]]))
        spe = first[("constants", "slots_per_epoch")]
        plans.append((c, want, spe))
    res = run_cases(chain(), ops, par=6)
    rep.ran("MC_Genesis", len(ops), traces=len(ops))
    for o, x, (c, want, spe) in zip(ops, res, plans):
        head = "a configuration with %s, %d sub windows" % (", ".join("/".join(p) for p, _ in c["odd"]) or "nothing changed", c["w"])
        if not x.get("ok"):
            note(rep, kinds, "config", "%s: %s" % (head, short(x)), o, x)
            continue
        if x["first"] != want.hex():
            note(rep, kinds, "config", "%s: its first block is not as specified, at: %s" % (head, x["first"] if isinstance(x["first"], dict) else differ(want, bytes.fromhex(x["first"]))), o, x, want.hex())
        for i, (l, g) in enumerate(zip(c["log"], x["log"])):
            ok = g["ok"] is l["ok"] and g["length"] == l["length"] and g["n"] == l["n"] and g["genesis"] and (g["top"] or not l["ok"]) and (l["n"] != 1 or g["slot"] == 0)
            if not ok:
                note(rep, kinds, "chain", "%s: a chain that starts with it, on push %d (%s): specification %s, code %s" % (head, i + 1, l["push"], short(l), short(g)), o, x, l)
                break
    # any block as a donor: a first block keeps of it what is carried, and the rest is as the specification rules
    (plain,) = [c for c in cases if not c["odd"] and c["w"] == 11]
    carried = {tuple(p) for p in plain["carried"]}
    R = rng("donors")
    draw = blocks.Draw(R)
    docs = [b for b in blocks.fixtures().values() if len(b) < 50000] + [draw.document() for _ in range(200 if THOROUGH else 25)]
    ops, wants = [], []
    for b in docs:
        at = index(b)
        num = lambda p: leaf(at[place(p)]).v % 2 ** 32
        w = R.choice([0, 1, 11, 100])
        if num(("constants", "slots_per_sub_window")) * w >= 2 ** 32:
            w = 1
        ps = []
        for p, v in plain["first"]:
            p = tuple(p)
            if p in carried:
                continue
            n = at[place(p)]
            if p[0] == "block":
                s, e = D.bytes_of(D.base, D.at, p)
                ps.append((min(m.s for m in n.all()), n.end, D.base[s:e]))
                continue
            n = leaf(n)
            v = num(("constants", "slots_per_epoch")) if p[1] == "slots_per_epoch" else w * num(("constants", "slots_per_sub_window")) if p[1] == "min_window_density" else v
            ps.append((n.s, n.e, bytes([v]) if n.kind == "Bool" else blocks.wr(v - 2 ** 32 if v >= 2 ** 31 else v, True)))
        want = bytearray(b)
        for s, e, x in sorted(ps, reverse=True):
            want[s:e] = x
        ops.append(dict(op="genesis", doc=b.hex(), w=w, push=[]))
        wants.append(bytes(want))
    res = run_cases(chain(), ops, par=6)
    rep.ran("donors", len(ops), traces=len(ops))
    for o, x, want in zip(ops, res, wants):
        if not x.get("ok") or x["first"] != want.hex():
            note(rep, kinds, "config", "a configuration that names the parts of a block: its first block is not as specified: %s" %
                 (differ(want, bytes.fromhex(x["first"])) if isinstance(x.get("first"), str) else short(x)), o, x, want.hex())
    rep.sample(dict(genesis={k: v for k, v in ops[len(ops) // 2].items() if k != "doc"}))

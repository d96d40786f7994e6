#!/usr/bin/env python3
"""Runs the quick suites of a property and writes every case with the harness's answer: record.py Cxx OUT
or answers the cases of such a file again: record.py - IN OUT"""
import json, os, sys
os.environ.setdefault("VERIF_TIER", "quick")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, props
KEYS = lambda: {props.mer.mer(): "merkle", props.chain.chain(): "chain", props.net.net(): "net", props.node.node(): "node", props.web.web(): "web", props.p2p.p2p(): "p2p"}
def kept(c):
    # a case whose document lies in a file that goes away
    if c.get("op") == "document" and "in" in c:
        c = dict(c, doc=open(c["in"], "rb").read().hex())
        del c["in"]
    if os.path.isfile(str(c.get("doc", ""))):
        c = dict(c, doc=None, text=open(c["doc"]).read())
    return c
class Rep:
    def __getattr__(self, n): return lambda *a, **k: None
if sys.argv[1] == "-":
    rec = json.load(open(sys.argv[2]))
    by = {}
    for i, (b, c, r) in enumerate(rec): by.setdefault(b, []).append(i)
    for b, ix in by.items():
        for i, r in zip(ix, core.run_cases(props.binary(b), [rec[i][1] for i in ix])): rec[i][2] = r
    json.dump(rec, open(sys.argv[3], "w"))
else:
    orig, rec, names = core.run_cases, [], KEYS()
    def run(b, cases, **k):
        r = orig(b, cases, **k)
        if b in names: rec.extend([names[b], kept(c), x] for c, x in zip(cases, r))
        return r
    core.run_cases = run
    for m in (props.mer, props.chain, props.net, props.text, props.blocks, props.node, props.web, props.genesis, props.p2p): m.run_cases = run
    for s, k in props.PROPS[sys.argv[1]]["suites"]: s(Rep(), k)
    json.dump(rec, open(sys.argv[2], "w"))

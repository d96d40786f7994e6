"""Conformance suites for the network crate: message processor and transition frontier."""
from core import *
from bp import short
from mer import STABLE

THOROUGH = TIER == "thorough"
_bin = None
def net():
    global _bin
    if _bin is None:
        _bin = cargo_build("net", ["net"], extra_env=STABLE)[0]
    return _bin

def note(rep, kinds, kind, what, case, res, want=None):
    if kinds is None or kind in kinds:
        rep.violation(kind, what, dict(harness="net", case=case, observed=res, expected=want))

def suite_schedule(rep, kinds):
    cases, t = tlc_export("MC_Processor", {"Depth": 8, "MaxBlocks": 6} if THOROUGH else {}, timeout=1500)
    rep.spec("MC_Processor", t)
    # longer schedules at random
    n = 6000 if THOROUGH else 1200
    more, t = tlc_export("MC_Processor", {"Depth": 40, "MaxBlocks": 14, "MaxReqs": 12}, timeout=900, workers=1,
                         simulate=["-simulate", "num=%d" % n, "-depth", "42", "-seed", str(SEED)])
    rep.spec("MC_Processor (random)", t)
    # the original bounded request channel deadlocks in the model: the check can tell
    bad = tlc("MC_Processor", {"ReqCap": 1, "Bad": "FALSE", "Depth": 9}, env={"OUT": os.path.join(scratch(), "void")}, expect_violation=True)
    if bad["invariant"] != "NoDeadlock":
        raise SpecBroken("the bounded request channel should deadlock in the model: %s" % bad["invariant"])
    ops = [dict(op="schedule", log=c["log"]) for c in cases + more]
    res = run_cases(net(), ops, par=6)
    rep.ran("MC_Processor", len(ops), traces=len(ops))
    keys = ("added", "queried", "adding", "querying")
    for o, x in zip(ops, res):
        acts = [a["a"] for a in o["log"]]
        if not x.get("ok"):
            note(rep, kinds, "schedule", "schedule %s: %s" % (acts, short(x)), o, x)
            continue
        for i, (w, g) in enumerate(zip(o["log"], x["out"])):
            want = dict({k: w["view"][k] for k in keys}, readable=True, ops=True, intact=True, running=True, taken=True)
            if g != want:
                note(rep, kinds, "schedule", "after the steps %s: specification %s, code %s" % (acts[:i + 1], {k: want[k] for k in want if g.get(k) != want[k]}, {k: g.get(k) for k in want if g.get(k) != want[k]}), o, x, want)
                break
    rep.sample(dict(schedule=[a["a"] for a in ops[-1]["log"]]))

def suite_frontier(rep, kinds):
    cases, t = tlc_export("MC_Frontier", {"Depth": 4, "Few": "TRUE"} if THOROUGH else {}, timeout=1500)
    rep.spec("MC_Frontier", t)
    if THOROUGH:
        more, t = tlc_export("MC_Frontier", {}, timeout=1500)
        rep.spec("MC_Frontier (all blocks)", t)
        cases += more
    more, t = tlc_export("MC_Frontier", {"Depth": 12}, timeout=900, workers=1,
                         simulate=["-simulate", "num=%d" % (1000 if THOROUGH else 60), "-depth", "14", "-seed", str(SEED)])
    rep.spec("MC_Frontier (random)", t)
    cases += more
    # the commands of blocks come from the specification of signed commands
    signed, _ = tlc_export("MC_Signed", timeout=600, workers=1)
    cmds = next(c["cmds"] for c in signed if c["kind"] == "block")
    ops = [dict(c, op="frontier", cmds=cmds) for c in cases]
    res = run_cases(net(), ops, par=6)
    rep.ran("MC_Frontier", len(ops), traces=len(ops))
    for o, x in zip(ops, res):
        head = "%s frontier, blocks %s" % (o["ty"], [(e["block"]["id"], e["v"]) for e in o["log"]])
        if not x.get("ok"):
            note(rep, kinds, "frontier", head + ": " + short(x), o, x)
            continue
        for i, (w, g) in enumerate(zip(o["log"], x["out"])):
            want = {k: w[k] for k in ("err", "best", "ledger")}
            if g != want:
                note(rep, kinds, "frontier", "%s: after block %d specification %s, code %s" % (head, i + 1, want, g), o, x, want)
                break
    rep.sample(dict(frontier=[(e["block"]["id"], e["v"]) for e in ops[0]["log"]]))

#!/usr/bin/env python3
"""Decide one property:  check.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
Re-run one recorded violation:  check.py --replay evidence/replays/C01-0.json"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core

def replay(path):
    d = json.load(open(path))
    r = d["replay"]
    import props
    x = core.run_cases(props.binary(r.get("harness", "bp")), [r["case"]])[0]
    print(json.dumps(dict(what=d["what"], case=r["case"], now=x, recorded=r["observed"], expected=r.get("expected")), indent=1))
    same = {k: v for k, v in x.items() if k not in ("msg", "detail")} == {k: v for k, v in (r["observed"] or {}).items() if k not in ("msg", "detail")} \
        or all(r["observed"].get(k) == v for k, v in x.items() if k in r["observed"] and k not in ("msg", "detail"))
    print("REPRODUCED" if same else "NOT REPRODUCED")
    return 1 if same else 0

def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        os.environ["VERIF_TIER"] = core.TIER = sys.argv[2]
    import props
    t0 = time.time()
    prop = sys.argv[1]
    rep = core.Report(prop)
    p = props.PROPS[prop]
    try:
        props.run(rep, p)
        props.probe_findings(rep, prop)
    except core.ToolError as e:
        if not rep.viol:      # what was already found stands
            print("ERROR: " + str(e))
            return 2
        print("note: " + str(e).splitlines()[0])
    return core.finish(rep, p.get("level", "model_checking"), t0)

sys.exit(main())

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BP = "protocol/bin-prot/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, state=None, level="model_checking", technique=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               hook_needed=hook, **({"state": state} if state else {})),
                  _note=note, _level=level, _tech=technique or "TLA+ specification checked with TLC; its behaviours replayed into the code and recorded executions validated against it"))
exec(open(os.path.join(V, "tools", "table.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as h:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        h.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
M = dict(version=1, setup_cmd="bash setup.sh", checks=[
    dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
         technique=p["_tech"], level=p["_level"], level_note=p["_note"]) for p in P if p["id"] not in NA],
    hooks=dict(guard="cfg(mina_verif)", enable="RUSTFLAGS has --cfg mina_verif for the harnesses that build consensus (lib/mer.py STABLE)", source_commits=HOOKS),
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="TLA+ (TLC). Harnesses in harness/ have path dependencies on /repo and are rebuilt by every check. Known findings: known-findings.txt.")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
# the table of planted bugs in DESIGN.md
import glob, re
rows = ["| bug | property | needs |", "|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"] + (" (missed)" if j.get("missed") else ""), j["needs"].replace("|", "/")))
D = os.path.join(V, "DESIGN.md")
t = open(D).read()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(D, "w").write(t)

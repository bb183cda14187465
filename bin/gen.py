#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props/meta.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "props"))
import meta
from importlib import util
TECH = "CBMC code contracts: pre/postconditions of the real C functions as proof obligations (goto-cc, goto-instrument, cbmc)"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for m in meta.M.values():
        assert len(m["title"]) <= 80, m["id"]
        f.write(json.dumps(dict(id=m["id"], title=m["title"], statement=m["statement"], quantifier=dict(over=m["over"], text=m["text"]), why_tests_cant=m["why"],
            anchors=dict(files=m["files"], mechanism=[dict(name=a, where=b) for a, b in m["mech"]], observe_at=m["observe"], hook_needed=m["hook"]))) + "\n")
checks = []
for m in meta.M.values():
    if not m["claimed"]: continue
    c = "python3 /verif/bin/check.py %s " % m["id"]
    checks.append(dict(property=m["id"], quick_cmd=c + "quick", thorough_cmd=c + "thorough", evidence_file="evidence/%s.json" % m["id"],
        technique=m.get("tech", TECH), level=getattr(meta, "LEVEL", {}).get(m["id"], "proof"), level_note=m["note"]))
man = dict(version=1, setup_cmd="python3 /verif/bin/setup.py", checks=checks,
    not_applicable=[dict(property=m["id"], reason=m["reason"]) for m in meta.M.values() if not m["claimed"]], notes="Generated by bin/gen.py from props/meta.py. See DESIGN.md.")
h = getattr(meta, "HOOKS", None)
if h: man["hooks"] = h
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")

# the section of DESIGN.md on each property
sys.path.insert(0, os.path.join(V, "bin"))
import vplib
def goals(l):
    return ", ".join("`%s`%s" % (g.name, " (thorough)" if g.tier == "thorough" else "") for g in l)
out = []
for m in meta.M.values():
    ns = dict(Goal=vplib.Goal)
    exec(open(os.path.join(V, "props", m["id"].lower() + ".py")).read(), ns)
    p = ns["PROP"]
    comp = [g for g in p["goals"] if not g.bound]
    sym = [g for g in p["goals"] if g.bound and not g.run]
    exe = [g for g in p["goals"] if g.run]
    out.append("### %s %s\n\n%s\n" % (m["id"], m["title"], m["note"]))
    fs = sorted({f for g in p["goals"] for f in g.functions})
    out.append("* Functions: %s." % ", ".join("`%s`" % f for f in fs))
    if comp: out.append("* Complete goals: %s." % goals(comp))
    if p.get("lemmas"): out.append("* Integer lemmas: %s." % ", ".join("`%s`" % l[0] for l in p["lemmas"]))
    if sym: out.append("* Bounded stand-ins, decided by the verifier: %s." % (goals(sym) if len(sym) <= 12 else "%d goals, %s ... %s" % (len(sym), goals(sym[:4]), goals(sym[-2:]))))
    for g in exe: out.append("* Bounded stand-in, executed: `%s`%s, %s." % (g.name, " (thorough)" if g.tier == "thorough" else "", g.bound))
    for a in p["assumptions"]: out.append("* Assumed: %s." % a)
    out.append("* Why tests cannot: %s\n" % m["why"])
d = os.path.join(V, "DESIGN.md")
t = open(d).read()
a, b = "<!-- properties: written by bin/gen.py -->\n", "<!-- end of properties -->"
i, j = t.index(a) + len(a), t.index(b)
open(d, "w").write(t[:i] + "\n" + "\n".join(out) + t[j:])

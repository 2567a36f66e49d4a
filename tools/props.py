#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py`."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real Python code with z3 (path forking, counterexample replay)"
NOTE = ("Bounded symbolic model checking: every feasible path of the real code within the stated sizes is explored and "
        "each assertion is decided by z3 for all input values of the path (real arithmetic). Trusts the numpy/pandas "
        "shims in symex/ (validated on sampled paths against the unpatched code each run). ")
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=True, note="", reason="", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  claim=claim, note=note, reason=reason, state=state, observe=observe))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]]}
        if p["state"]:
            a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
        a["observe_at"] = p["observe"] or [m[1] for m in p["mech"]]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["claim"]:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "VERIF_TIER=quick /opt/venv/bin/python run.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python run.py " + p["id"],
            "technique": TECH, "level": "model_checking", "level_note": NOTE + p["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed", len(man["not_applicable"]), "not applicable")

# ---- generated sections of DESIGN.md
d = open(os.path.join(V, "DESIGN.md")).read().split("<!-- generated from here on by tools/props.py -->")[0]
d += "<!-- generated from here on by tools/props.py -->\n## 3. Properties\n\n"
for p in P:
    d += "### %s %s\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["claim"]:
        d += "*Decided by* symbolic execution of %s. *Over:* %s %s *Tests cannot settle it:* %s\n\n" % (
            "; ".join("`%s` (%s)" % (m[1], m[0]) for m in p["mech"]), p["text"], p["note"], p["why"])
    else:
        d += "*Not applicable:* %s\n\n" % p["reason"]
d += "## 4. Findings\n\n" + open(os.path.join(V, "tools", "findings.md")).read()
rf = os.path.join(V, "tools", "seed_results.json")
d += "\n## 5. Planted bugs\n\nValidated in scratch copies (demo, stable tests of the touched modules, check).\n\n| bug | property | needs | breaks | caught |\n|---|---|---|---|---|\n"
if os.path.exists(rf):
    for k, r in sorted(json.load(open(rf)).items(), key=lambda kv: (kv[1]["property"], kv[0])):
        if r["valid"]:
            d += "| %s | %s | %s | %s | %s |\n" % (k, r["property"], r["needs"], r["breaks"], "yes" if r["caught"] else "no")
open(os.path.join(V, "DESIGN.md"), "w").write(d)

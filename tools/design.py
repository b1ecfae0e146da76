"""Assemble DESIGN.md."""

import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(ROOT, "tools")
PROPS, NA = [], []


def prop(id, title, statement, over, quant, why, files, mech, note, level="model_checking", observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    NA.append((id, title, reason))


exec(open(os.path.join(T, "props_table.py")).read())
found = json.load(open(os.path.join(ROOT, "known_findings.json")))
res = json.load(open(os.path.join(T, "seeded_results.json")))
out = [open(os.path.join(T, "design_head.md")).read().rstrip(), "", "## 4. The properties", ""]
for p in sorted(PROPS, key=lambda p: p["id"]):
    src = open(os.path.join(ROOT, "props", p["id"].lower() + ".py")).read()
    doc = re.match(r'"""(.*?)"""', src, re.S).group(1).strip().splitlines()[0]
    out += [f"### {p['id']} {p['title']}", "", p["statement"].strip(), ""]
    out += [f"- Harness: `props/{p['id'].lower()}.py` ({doc})"]
    out += ["- Executed symbolically: " + ", ".join(f"`{a}` ({b})" for a, b in p["mech"]) + "; the functions reached are listed in the evidence."]
    out += [f"- For all: {p['quant']}.", f"- Stand-ins and limits: {p['note']}", f"- Beyond the tests: {p['why']}"]
    c = res["cost"].get(p["id"])
    if c:
        out += [f"- Cost of the quick run: {c}."]
    caught = [k for k, v in sorted(res["bugs"].items()) if v["property"] == p["id"]]
    if caught:
        out += ["- Planted changes: " + ", ".join(f"{k} ({'caught' if res['bugs'][k]['caught'] else 'MISSED'})" for k in caught) + "."]
    out += [""]
out += ["Not applicable: " + ("none" if not NA else "; ".join(f"{i} {t} ({r})" for i, t, r in NA)) + ".", ""]
fx = [f for f in found if f["status"] == "fixed"]
kn = [f for f in found if f["status"] != "fixed"]
out += ["## 5. Defects found in the repository", "", f"{len(fx)} defects were repaired, each in a `fix:` commit of its own, and the check of the property reports it again when the commit is reverted:", ""]
out += [f"- {f['property']} `{f['commit']}` {f['what']}" for f in sorted(fx, key=lambda f: f["property"])]
out += ["", f"{len(kn)} findings are recorded, not repaired (`known_findings.json`), because a test of the repository fixes the numbers or the format they produce:", ""]
out += [f"- {f['property']}: {f.get('what') or f.get('entry')}" for f in kn]
out += ["", "Each known finding is matched by the case and assertion that fails; any other failing assertion of the same property is still a violation.", ""]
n = len(res["bugs"])
missed = [k for k, v in res["bugs"].items() if v.get("first") is False]
out += ["### Planted changes", "", f"{n} changes were planted (`seeded/`), each written from the property's text and the code alone, and kept whether or not caught. Of the first 28, 11 were missed by the check as it was when they were "
        "written; of the next 14, 5; of the last ones: " + ", ".join(sorted(missed)) + ". The checks were extended for these (new choices, more samples, unsorted inputs, larger ranges, integer inputs), in each case by the general input class and not the change. With the checks as committed, "
        + ("all are caught." if all(v["caught"] for v in res["bugs"].values()) else "missed: " + ", ".join(k for k, v in res["bugs"].items() if not v["caught"]) + "."), ""]
out += [open(os.path.join(T, "design_tail.md")).read().strip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines")

"""Write properties.jsonl, MANIFEST.json and known_findings.json from the tables below."""

import json
import os
import re
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/lightcurvelynx/"
TECH = (
    "symbolic execution of the real Python source (inputs, draws and choices as z3 terms, path forking, numpy/jax/math re-interpreted), "
    "each assertion decided by z3 for all values within the stated bounds; counterexamples replayed on the unmodified code"
)

PROPS = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, note, level="model_checking", observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, level=level, observe=observe, state=state))


def na(id, title, statement, over, quant, why, files, mech, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=None, level=None, observe=None, state=None))
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())


def main():
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            anchors = {"files": [P + x for x in p["files"]], "mechanism": [{"name": a, "where": P + b} for a, b in p["mech"]], "hook_needed": None}
            for a in anchors["files"]:
                assert os.path.exists(os.path.join("/repo", a)), a
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": anchors,
            }) + "\n")  # fmt: skip
    checks = []
    for p in PROPS:
        if p["note"] is None:
            continue
        assert os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")), p["id"]
        checks.append({
            "property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": TECH, "level": p["level"], "level_note": p["note"],
        })  # fmt: skip
    man = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks, "not_applicable": NA}
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    fixes = {ln.split(" ", 1)[1]: ln.split(" ", 1)[0] for ln in log if " fix: " in " " + ln}
    out = []
    for sub, (pid, what) in FIXED.items():
        h = fixes.pop(sub)
        out.append({"property": pid, "status": "fixed", "commit": h, "what": what, "entry": f"fixed: property={pid} {h} {what}"})
    assert not fixes, fixes
    out += KNOWN
    json.dump(out, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
    print(len(PROPS), "properties", len(checks), "checks", len(out), "findings")


main()

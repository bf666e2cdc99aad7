#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. (Run by hand after editing.)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "src/oifitslib/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, level="exploration"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                       why_tests_cant=why, anchors=a), technique, note, level))


exec(open(os.path.join(HERE, "tools", "props_text.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, *_ in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": t, "level": lv, "level_note": n,
    } for p, t, n, lv in PROPS],
    "not_applicable": [],
    "notes": NOTES,
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")

#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from bugs_*.py (run by hand)."""
import difflib, glob, json, os, shutil, sys
H = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(H)), "seeded")
BUGS = []
def B(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, demo))
for f in sorted(glob.glob(H + "/bugs_*.py")):
    exec(open(f).read())
for id, prop, edits, needs, breaks, demo in BUGS:
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    files = {}
    for e in edits:
        path, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        s = files.get(path) or open("/repo/" + path).read()
        n = s.count(old)
        if nth is None:
            if n != 1: sys.exit("%s: %d matches of %r" % (id, n, old))
            s = s.replace(old, new)
        else:
            i = -1
            for _ in range(nth): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        files[path] = s
    with open(d + "/patch.diff", "w") as f:
        for path, s in sorted(files.items()):
            f.writelines(difflib.unified_diff(open("/repo/" + path).read().splitlines(True), s.splitlines(True), "a/" + path, "b/" + path))
    open(d + "/demo.c", "w").write('#include "ds.h"\n' + demo.strip() + "\n")
    shutil.copy(H + "/ds.h", d + "/ds.h")
    shutil.copy(H + "/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
print(len(BUGS), "bugs")

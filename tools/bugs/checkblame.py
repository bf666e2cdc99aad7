#!/usr/bin/env python3
"""Names planted bugs which remove lines that commits after the pinned one added."""
import glob, re, subprocess
BASE = "ad58c3a"
mine = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", BASE + "..HEAD"], capture_output=True, text=True).stdout.split()
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, n = None, 0
    for l in open(p):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("+++"): pass
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "-L%d,%d" % (n, n), "HEAD", "--", f], capture_output=True, text=True).stdout.split()[0].lstrip("^")
            if any(m.startswith(b) for m in mine): print(p.split("/")[3], f, n, l.strip())
            n += 1
        elif not l.startswith("+"): n += 1

#!/usr/bin/env python3
"""Says for each /verif/seeded patch how many of the lines it removes are the original
repository's (blamed on the pinned commit or before) and how many our own commits added."""
import os, re, subprocess
base = "efc89c5"
def orig(f, n):
    o = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "-L", f"{n},{n}", "HEAD", "--", f], capture_output=True, text=True).stdout
    h = o.split()[0].lstrip("^")
    return subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", h, base]).returncode == 0
for d in sorted(os.listdir("/verif/seeded")):
    f = None; ours = theirs = adds = 0
    for l in open(f"/verif/seeded/{d}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("+++"): pass
        elif m := re.match(r"@@ -(\d+)", l): n = int(m[1])
        elif l.startswith("-"):
            if orig(f, n): theirs += 1
            else: ours += 1
            n += 1
        elif l.startswith("+"): adds += 1
        elif l.startswith(" "): n += 1
    print(f"{'' if theirs else '!!'} {d}: original {theirs}, own {ours}, added {adds}")

#!/usr/bin/env python3
"""newbug.py NAME PROPERTY NEEDS WHAT < main.rs: writes seeded/NAME from the diff of /tmp/seed/work (a scratch copy of /repo), then restores it"""
import sys, json, os, shutil, subprocess, re
name, prop, needs, what = sys.argv[1:5]
d = f"/verif/seeded/{name}"
git = lambda *a: subprocess.run(["git", "-C", "/tmp/seed/work", *a], capture_output=True, text=True, check=True).stdout
diff = git("diff")
assert diff, "no change"
# the change must touch lines of the original repository
orig = other = 0
f = None
for l in git("diff", "-U0").splitlines():
    if l.startswith("--- a/"): f = l[6:]
    m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
    if m:
        n = int(m[2]) if m[2] is not None else 1
        if n:
            for b in git("blame", "-s", "HEAD", "-L", f"{m[1]},+{n}", f).splitlines():
                if b.startswith("^"): orig += 1
                else: other += 1
print(f"{name}: changes {orig} original lines, {other} of mine")
assert orig, "touches no original line"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
git("checkout", "-q", "--", ".")
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
for f in ("demo.sh", "peer.rs"): shutil.copy(f"/verif/tools/demo/{f}", d)
open(d + "/main.rs", "w").write(sys.stdin.read())

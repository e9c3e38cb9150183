#!/usr/bin/env python3
"""Writes SPACES.md (every space of every check) and the table of planted bugs in DESIGN.md."""
import glob, json, os, re, subprocess
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
out = subprocess.run([here + "/mc/target/release/mc", "list"], capture_output=True, text=True, check=True).stdout
spaces = {}
for l in out.splitlines():
    m = re.match(r"(\w+) (C\d\d) ([^:]*): (.*)", l)
    if not m: continue
    tier, c, name, desc = m.groups()
    spaces.setdefault(c, {}).setdefault(name, {}).setdefault(desc if len(desc) < 420 else desc[:400] + " ...", []).append(tier.lower())
with open(here + "/SPACES.md", "w") as f:
    f.write("# Every space of every check\n\nWritten by `tools/gen_docs.py` from `mc list`.  A space is explored completely within its bounds.\n")
    for c in sorted(spaces):
        f.write(f"\n## {c}\n\n")
        for name, ds in spaces[c].items():
            for d, tiers in ds.items():
                f.write(f"* `{name}` ({', '.join(tiers)}): {d}\n")
rows = ["| change | check | what it needs |", "|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = d.split("/")[-2]
    rows.append(f"| {n} | {m.get('caught', m['property'])} | {m['needs']} |")
p = here + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", s, flags=re.S)
open(p, "w").write(s)

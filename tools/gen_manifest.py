#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
src = open(here + "/mc/src/checks/mod.rs").read()
done = set(re.findall(r'id: "(C\d\d)"', src))
TECH = "stateless model checking of the compiled library: exhaustive deviation-bounded enumeration of network fates, task schedules, clock and inputs under a controlled scheduler, clock and network"
NOTE = ("Exhaustive within the bounds the evidence file states (spaces, deviation budget, fault alphabet). Runs the library's own code from /repo; "
        "trusts the simulated UDP socket, timer and executor that replace tokio's (tokio's channels, locks, select and semaphores are the real ones), and the independent wire codec.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           technique=TECH, level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="cfg(raknet_mc)", enable="mc/.cargo/config.toml passes --cfg raknet_mc to rustc; without it the library is the plain one",
                    source_commits=["9b2e0e305c99800bee9c6c2db05548ecf6bac34f"]),
         notes="The library is built from /repo's working tree against a stand-in for tokio (mc/simtokio) selected by [patch.crates-io] in the harness crate. "
               "The only hook lets C25 start a connection's counters close to where they run out.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")

#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when the simulator has a scenario for it."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
claimed = set(re.findall(r'ID:\s+"([A-Z]\d\d)"', "".join(open(f"{V}/sim/scen/{f}").read() for f in sorted(os.listdir(f"{V}/sim/scen")) if f.endswith(".go"))))
claimed |= set(re.findall(r'reg\("([A-Z]\d\d)"', "".join(open(f"{V}/sim/scen/{f}").read() for f in sorted(os.listdir(f"{V}/sim/scen")) if f.endswith(".go"))))
NA = {
 "N02": "Rule evaluation on one line is a pure function of the line and the rule; there is nothing for a simulator to schedule or to fail. (That matches, once made, are reported is C05.)",
 "N03": "Rendering and parsing a name is pure string code without concurrency, time or I/O.",
 "N04": "A statistical statement about a pure numeric function over long sample paths; schedules and faults play no part in it. (The detector's phases and its sampling timer are D01 and M03.)",
}
NOTE = ("Seeded search: every run is one exactly repeatable execution of the real code, translated from /repo's working tree onto a "
 "deterministic scheduler, clock, pipes, processes, files and network; a violation is minimised and replayed in a fresh process before it is reported. "
 "Says nothing about schedules, faults and inputs not drawn. Trusts the translator, the simulated machine and the oracle.")
EXTRA = json.load(open(f"{V}/tools/notes.json")) if os.path.exists(f"{V}/tools/notes.json") else {}
m = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": [],
 "notes": "No hooks in /repo: rewrite/ translates the working tree so that every goroutine, channel, lock, timer, clock, random number, process, pipe, file and connection goes through the simulator. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
          "technique": "deterministic simulation with fault injection: seeded search over schedules and faults",
          "level": "exploration", "level_note": EXTRA.get(i, "") + (" " if i in EXTRA else "") + NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check yet.")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")

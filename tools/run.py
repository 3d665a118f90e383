#!/usr/bin/env python3
"""Development helper: run.py [-t SECONDS] [-v] REGEX... explores matching harnesses, prints a summary."""
import json, re, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("VERIF_WORK", V + "/.work")
a = sys.argv[1:]
t = "300"
name = "sym"
verb = False
while a and a[0].startswith("-"):
    if a[0] == "-t":
        t = a[1]; a = a[2:]
    elif a[0] == "-n":
        name = a[1]; a = a[2:]
    elif a[0] == "-v":
        verb = True; a = a[1:]
names = open(W + "/%s.api" % name).read().split()
hs = [n for n in names if any(re.search(p, n) for p in a)]
for h in (hs if verb else [None]):
    sel = [h] if h else hs
    o = "/tmp/w/run.json"
    p = subprocess.run([W + "/engine/release/symex", "--ll", W + "/%s.ll" % name, "--out", o, "--time-limit", t] + sel)
    r = json.load(open(o))
    for k, v in r["harnesses"].items():
        print("%-28s sh %d/%d paths %d killed %d insts %.1fM q %d (%d unsat) as %d solver %.1f cpu %.1f%s%s" % (
            k, v["shards_done"], v["shards"], v["paths"], v["killed"], v["insts"] / 1e6, v["queries"], v["unsat"],
            v["asserts"], v["solver_s"], v["cpu_s"], " MISSING %s" % v["missing"] if v["missing"] else "",
            " ERR %s" % [e[:1500] for e in v["errors"]] if v["errors"] else ""))
        seen = set()
        for x in v["violations"]:
            if (x["kind"], x["msg"]) in seen: continue
            seen.add((x["kind"], x["msg"]))
            if len(seen) > 3: continue
            print("    V", x["kind"], x["msg"], "" if x["model_ok"] else "(UNCONFIRMED MODEL)", str(x["inputs"])[:220], [t.split("::")[-1] if 0 else t[-50:] for t in x["trace"][:3]])
    print("wall %.1f" % r["wall_s"])

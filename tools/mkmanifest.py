#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and bin/plan.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import plan
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    P = plan.PLAN[i]
    checks.append({
        "property": i,
        "quick_cmd": "bin/check %s quick" % i,
        "thorough_cmd": "bin/check %s thorough" % i,
        "technique": "symbolic execution of the crate's LLVM IR with Z3 deciding every branch and assertion",
        "level": "model_checking",
        "level_note": "Every input within the bounds is covered by some explored path; counterexamples are replayed on the "
                      "native crate. Bounds: %s. Outside: %s. Trusts: rustc's lowering to IR, the engine's reading of it "
                      "(sampled paths are replayed natively and must observe the same values), Z3; MD4/MD5 compression, "
                      "DES and RC4 are uninterpreted functions shared with the oracle." % (P["bounds"], P["outside"]),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 bin/build.py engine ir native",
    "hooks": {
        "guard": "cfg(http_ntlm_verif)",
        "enable": "RUSTFLAGS='--cfg http_ntlm_verif' (set by bin/build.py for the harness crate, which depends on /repo by path)",
        "source_commits": [subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=cfg-guarded hook"], text=True).strip()],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "All checks share one engine (engine/), one harness crate (harness/) and one driver (bin/check). See DESIGN.md.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")

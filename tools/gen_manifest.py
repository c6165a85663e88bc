#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property of properties.jsonl whose harness exists.  Run: python3 tools/gen_manifest.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN
TECH = {
    "C14": "tracked-lifetime monitor over random ownership histories, threads under ThreadSanitizer, ASan/UBSan",
    "C17": "owner-history monitor and ThreadSanitizer over contended schedules with injected delays",
    "C18": "online checker of recorded action sequences over random scope nestings with injected throws",
    "C24": "child-process monitor: exit status and captured stdout/stderr of each build configuration",
    "C26": "monitor under an interposed (virtual) clock",
    "C27": "offline comparison of per-case result digests recorded from every build configuration",
    "C28": "concurrent runs under ThreadSanitizer, results compared with single-threaded ones",
    "C31": "observation of the configuration macros in translation units compiled for each (also simulated) platform, against the running machine and known answers",
    "C32": "one monitored program of many translation units and a shared object, sanitized; results, addresses and layouts compared between units and times (before, in and after main)",
    "C29": "fault injection into a monitored allocator and monitored user code; live-block, state and result oracle after every fault",
}
DEFAULT = "runtime oracle on generated workloads in sanitized (ASan/UBSan/valgrind), debug and optimised builds"
NOTE = ("Exploration: the oracle observed no violation on the generated cases (counts in evidence); sampled inputs, not all. "
        "Trusts the harness's reference implementation, the compilers' sanitizers, libc/libstdc++ and x86-64 Linux.")
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PLAN and all(os.path.exists(os.path.join(V, "harness", s)) for s in PLAN[p]["sources"]):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH.get(p, DEFAULT), "level": PLAN[p].get("level", "exploration"),
                       "level_note": PLAN[p].get("level_note", NOTE)})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py tools/plan.py && g++ --version >/dev/null && clang++ --version >/dev/null",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: every check builds the unmodified library sources of /repo/src/utki together with a harness from /verif/harness in several configurations and observes it from outside. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

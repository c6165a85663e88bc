"""Which harness, build configurations and workload sizes decide each property."""

import os

import platforms

# (configuration, scale of the case counts).  See CONFIGS in check.py.
def std(scale=1.0, vg=0.03, fuzz=0):
    q = {"runs": [("gcc17dbg-asan", 1 * scale), ("clang20rel-asan", 1 * scale), ("gcc17rel", 3 * scale), ("gcc20dbg", 1 * scale)]}
    if vg:
        q["runs"].append(("gcc17rel-vg", vg * scale))
    t = {"runs": [("gcc17dbg-asan", 20 * scale), ("clang20rel-asan", 20 * scale), ("gcc17rel", 60 * scale), ("gcc20dbg", 20 * scale),
                  ("gcc20dbg-asan", 20 * scale), ("gcc17rel-asan", 20 * scale), ("clang17dbg-asan", 20 * scale), ("gcc20rel", 60 * scale), ("clang17rel", 60 * scale)]}
    if vg:
        t["runs"].append(("gcc17rel-vg", vg * 10 * scale))
    if fuzz:
        t["fuzz"] = [("clang17rel-fuzz", fuzz), ("clang20dbg-fuzz", fuzz)]
    return {"quick": q, "thorough": t}


PLAN = {}
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")


def plan(prop, sources=None, **kw):
    base = dict(std(kw.pop("scale", 1.0), kw.pop("vg", 0.03), kw.pop("fuzz", 300000)))
    base.update(kw)
    base["sources"] = sources or [prop.lower() + ".cpp"]
    PLAN[prop] = base


for i in range(1, 31):
    plan("C%02d" % i)

plan("C31", vg=0, fuzz=0, variants=platforms.variants(os.path.join(HARNESS, "stubs")))
for tier in ("quick", "thorough"):
    PLAN["C31"][tier]["runs"] = [("gcc17dbg-asan", 1), ("gcc17rel", 1), ("clang20rel-asan", 1), ("gcc23rel", 1), ("clang26dbg", 1)]

plan("C32", vg=0, fuzz=0, flags=["-fno-sanitize=vptr", "-DVH_THREAD_DIGEST"], per_header={"skip": ["windows.hpp"]}, link_verdict=True,  # windows.hpp is for Windows
     variants=[{"source": "c32_unit.cpp", "name": "unit%d" % i, "flags": ["-DUNIT=%d" % i], "shared": i == 3} for i in range(4)])
for tier, s in (("quick", 1), ("thorough", 15)):
    PLAN["C32"][tier]["runs"] = [("gcc17dbg-asan", s), ("clang20rel-asan", s), ("gcc17rel", 2 * s), ("gcc23rel", 2 * s)] + ([("clang26dbg", s), ("gcc20dbg", s)] if tier == "thorough" else [])

plan("C07", locales=["de_DE.UTF-8", "xx_XX.ISO-8859-1"])
plan("C08", locales=["xx_XX.ISO-8859-1"])


def with_tsan(prop, scale=1.0, q=1.0, t=20.0, **kw):
    plan(prop, **kw)
    for tier, s in (("quick", q), ("thorough", t)):
        PLAN[prop][tier]["runs"] += [("gcc17rel-tsan", s), ("clang20dbg-tsan", s)]


with_tsan("C14", cpu_mult=5)
with_tsan("C17", q=0.4, t=8.0, vg=0, fuzz=0, scale=0.5, cpu_mult=5)
for tier in ("quick", "thorough"):
    PLAN["C17"][tier]["parallel"] = 3
plan("C16", flags=["-fno-sanitize=vptr"])  # the base class constructor casts to the class under construction by design (CRTP)
plan("C18")
plan("C27", digest=True, fuzz=0)
for tier, s in (("quick", 1), ("thorough", 20)):
    # programs and libraries built with other settings ("A+B": program + library), and newer standards
    PLAN["C27"][tier]["runs"] += [("gcc20dbg+gcc17rel", s), ("gcc17rel+gcc20dbg", s), ("clang20rel+gcc17dbg", s), ("gcc17dbg+clang20rel", s), ("gcc23rel", s), ("clang26dbg", s)]
plan("C28", vg=0, fuzz=0, cpu_mult=5, flags=["-fno-sanitize=vptr"])  # as C16
for tier, s in (("quick", 1), ("thorough", 12)):
    PLAN["C28"][tier]["runs"] = [("gcc17dbg-asan", s), ("gcc17rel", 3 * s), ("gcc20dbg", 2 * s), ("gcc17rel-tsan", s), ("clang20dbg-tsan", s)]
plan("C29", vg=0, fuzz=0, scale=0.3, flags=["-fno-sanitize=vptr"])  # as C16
plan("C30", vg=0, fuzz=0, flags=["-fno-sanitize=vptr"])  # as C16
for tier, s in (("quick", 1), ("thorough", 12)):
    PLAN["C30"][tier]["runs"] = [("gcc17dbg-asan", s), ("clang17dbg-asan", s), ("gcc20dbg", 2 * s), ("gcc17dbg", 3 * s), ("gcc17rel", s), ("clang20rel-asan", s)]

#!/usr/bin/env python3
"""Runs the runtime-monitoring check of one property against /repo's working tree.

  check.py C08 quick|thorough            exit 0: held on everything observed; 1: VIOLATION line printed; 2: no verdict
  check.py C08 --replay replays/x.json   rebuilds that configuration and re-runs that single case
"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN  # noqa: E402

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]
COMMON = ["-Wno-everything", "-fstrict-aliasing", "-fPIC"]
CONFIGS = {
    # name: (compiler, flags, what kind of instrumentation)
    "gcc17dbg-asan": ("g++", ["-std=c++17", "-O1", "-DDEBUG", "-D_GLIBCXX_DEBUG"] + SAN, "asan"),
    "gcc20dbg-asan": ("g++", ["-std=c++20", "-O1", "-DDEBUG", "-D_GLIBCXX_ASSERTIONS"] + SAN, "asan"),
    "gcc17rel-asan": ("g++", ["-std=c++17", "-O1"] + SAN, "asan"),
    "clang20rel-asan": ("clang++", ["-std=c++20", "-O1"] + SAN, "asan"),
    "clang17dbg-asan": ("clang++", ["-std=c++17", "-O1", "-DDEBUG"] + SAN, "asan"),
    "gcc17rel": ("g++", ["-std=c++17", "-O3", "-g1"], "plain"),
    "gcc20rel": ("g++", ["-std=c++20", "-O3", "-g1"], "plain"),
    "gcc17dbg": ("g++", ["-std=c++17", "-O0", "-DDEBUG", "-g1"], "plain"),
    "gcc20dbg": ("g++", ["-std=c++20", "-O0", "-DDEBUG", "-g1"], "plain"),
    "clang17rel": ("clang++", ["-std=c++17", "-O2", "-g1"], "plain"),
    "clang20rel": ("clang++", ["-std=c++20", "-O3", "-g1"], "plain"),
    "clang17dbg": ("clang++", ["-std=c++17", "-O0", "-DDEBUG", "-g1"], "plain"),
    "gcc23rel": ("g++", ["-std=c++23", "-O2", "-g1"], "plain"),
    "gcc23dbg-asan": ("g++", ["-std=c++23", "-O1", "-DDEBUG", "-D_GLIBCXX_ASSERTIONS"] + SAN, "asan"),
    "clang26dbg": ("clang++", ["-std=c++2c", "-O1", "-DDEBUG", "-g1"], "plain"),
    "gcc17rel-vg": ("g++", ["-std=c++17", "-O1", "-g"], "valgrind"),
    "gcc17rel-tsan": ("g++", ["-std=c++17", "-O1", "-g1", "-fsanitize=thread"], "tsan"),
    "clang20dbg-tsan": ("clang++", ["-std=c++20", "-O1", "-g1", "-DDEBUG", "-fsanitize=thread"], "tsan"),
    "clang17rel-fuzz": ("clang++", ["-std=c++17", "-O1", "-DVH_FUZZ", "-fsanitize=fuzzer-no-link"] + SAN, "fuzz"),
    "clang20dbg-fuzz": ("clang++", ["-std=c++20", "-O1", "-DDEBUG", "-DVH_FUZZ", "-fsanitize=fuzzer-no-link"] + SAN, "fuzz"),
}
# "A+B": the program is built in configuration A and linked to the library built in configuration B
UAR = {"clang17dbg-asan"}  # stack use after return is watched in one (thorough) configuration: it makes exceptions very slow
NCPU = os.cpu_count() or 4
CASE_CPU_S = 60        # CPU seconds one case may use without making progress before it counts as a hang
CASE_WALL_S = 240      # ... and wall clock seconds (blocked, not spinning)
RUN_WALL_S = {"quick": 700, "thorough": 7200}


class Inconclusive(Exception):
    pass


def lib_sources():
    d = os.path.join(REPO, "src/utki")
    r = []
    for base, _, files in os.walk(d):
        r += [os.path.join(base, f) for f in files if f.endswith(".cpp")]
    return sorted(r)


def conf(cfg):
    return CONFIGS[cfg.split("+")[0]]


def flags_for(cfg, lib=False):
    cc, fl, kind = CONFIGS[cfg.split("+")[-1 if lib else 0]]
    common = [f for f in COMMON if not (cc == "g++" and f == "-Wno-everything")]
    if cc == "g++":
        common.append("-w")
    return cc, fl + common + ["-I", os.path.join(REPO, "src"), "-isystem", os.path.join(REPO, "src_deps"),
                              "-I", os.path.join(VERIF, "harness")]


def run_cmd(cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")


def unit_object(prefix, src):
    return prefix + re.sub(r"\W", "_", os.path.relpath(src, "/"))[-150:] + ".o"


class Build:
    """Builds the library and the harness for a set of configurations, from /repo's working tree."""

    def __init__(self, prop, plan, scratch):
        self.prop, self.plan, self.scratch = prop, plan, scratch
        self.bin, self.api_errors, self.link_errors = {}, [], []

    def header_units(self, d):
        """one translation unit per public header which includes only that header, twice"""
        r = []
        base = os.path.join(REPO, "src")
        for top, _, files in os.walk(os.path.join(base, "utki")):
            for f in sorted(files):
                if f.endswith(".hpp"):
                    rel = os.path.relpath(os.path.join(top, f), base)
                    if os.path.basename(rel) in self.plan["per_header"]["skip"]:
                        continue
                    name = re.sub(r"\W", "_", rel)
                    src = os.path.join(d, "alone_" + name + ".cpp")
                    with open(src, "w") as o:
                        o.write("#include <%s>\n#include <%s>\nextern \"C\" int alone_%s() { return 1; }\n" % (rel, rel, name))
                    r.append(src)
        return r

    def tsan_fences(self, cfg, objs):
        """ThreadSanitizer ignores fences: if the program has any, link stand-ins which give them a meaning (see the file)."""
        p = run_cmd(["nm", "-u"] + [o for o in objs if not o.startswith("-")])
        if "__tsan_atomic_thread_fence" not in p.stdout:
            return []
        o = os.path.join(self.scratch, cfg, "tsan_fence.o")
        src = os.path.join(VERIF, "harness", "tsan_fence.cpp")
        p = run_cmd([conf(cfg)[0], "-std=c++17", "-O1", "-c", src, "-o", o])
        if p.returncode != 0:
            raise Inconclusive("tsan_fence.cpp does not compile [%s]\n%s" % (cfg, p.stdout[-3000:]))
        names = re.findall(r"__tsan_atomic_thread_fence|__tsan_atomic\d+_[a-z_]+", run_cmd(["nm", o]).stdout)
        return [o] + ["-Wl,--wrap=" + n for n in sorted(set(names))]

    def build(self, cfgs):
        ex = ThreadPoolExecutor(NCPU)
        harness = [os.path.join(VERIF, "harness", h) for h in self.plan["sources"]]
        jobs, shared = [], set()
        for cfg in cfgs:
            d = os.path.join(self.scratch, cfg)
            os.makedirs(d, exist_ok=True)
            extra = self.plan.get("flags", [])
            units = [(src, True, [], "h_") for src in harness] + [(src, False, [], "l_") for src in lib_sources()]
            for v in self.plan.get("variants", []):  # more translation units of the program: (source, name, flags, shared)
                units.append((os.path.join(VERIF, "harness", v["source"]), True, v.get("flags", []), "v_" + v["name"] + "_"))
                if v.get("shared"):
                    shared.add(os.path.join(d, unit_object("v_" + v["name"] + "_", units[-1][0])))
            if self.plan.get("per_header"):
                units += [(src, True, [], "u_") for src in self.header_units(d)]
            for src, is_h, more, prefix in units:
                cc, fl = flags_for(cfg, lib=not is_h)
                o = os.path.join(d, unit_object(prefix, src))
                cmd = [cc] + fl + (extra + ["-DVH_CONFIG=\"" + cfg + "\""] + more if is_h else []) + ["-c", src, "-o", o]
                jobs.append((cfg, src, is_h, o, ex.submit(run_cmd, cmd)))
        objs, failed = {}, []
        for cfg, src, is_h, o, fut in jobs:
            p = fut.result()
            if p.returncode != 0:
                failed.append((cfg, src, is_h, p))
            objs.setdefault(cfg, []).append(o)
        libfail = [f for f in failed if not f[2]]
        if libfail:
            raise Inconclusive("library source does not compile: %s [%s]\n%s" % (libfail[0][1], libfail[0][0], libfail[0][3].stdout[-3000:]))
        bad = set()
        for cfg, src, is_h, p in failed:
            if "error:" not in p.stdout or "internal compiler error" in p.stdout or "Killed" in p.stdout:
                raise Inconclusive("harness compilation broke: %s [%s]\n%s" % (src, cfg, p.stdout[-3000:]))
            self.api_errors.append((cfg, src, p.stdout))
            bad.add(cfg)
        links = []
        for cfg in cfgs:
            if cfg in bad:
                continue
            cc, fl = flags_for(cfg)
            exe = os.path.join(self.scratch, cfg, "harness")
            so = [o for o in objs[cfg] if o in shared]
            if so:  # goes into a shared object which the program is linked to
                lib = os.path.join(self.scratch, cfg, "libunits.so")
                p = run_cmd([cc] + fl + so + ["-shared", "-o", lib, "-pthread"])
                if p.returncode != 0:
                    raise Inconclusive("link of the shared object failed [%s]\n%s" % (cfg, p.stdout[-3000:]))
                objs[cfg] = [o for o in objs[cfg] if o not in shared] + ["-Wl,--no-as-needed", lib, "-Wl,-rpath," + os.path.dirname(lib)]
            cmd = [cc] + fl + objs[cfg] + ["-o", exe, "-pthread", "-ldl", "-lutil"] + self.plan.get("ldflags", [])
            if conf(cfg)[2] == "fuzz":
                cmd.append("-fsanitize=fuzzer")
            if conf(cfg)[2] == "tsan":
                cmd += self.tsan_fences(cfg, objs[cfg])
            links.append((cfg, exe, ex.submit(run_cmd, cmd)))
        for cfg, exe, fut in links:
            p = fut.result()
            if p.returncode != 0 and self.plan.get("link_verdict") and re.search(r"multiple definition|duplicate symbol|undefined reference", p.stdout):
                self.link_errors.append((cfg, p.stdout))
                continue
            if p.returncode != 0:
                raise Inconclusive("link failed [%s]\n%s" % (cfg, p.stdout[-3000:]))
            self.bin[cfg] = exe
        ex.shutdown()


def proc_cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            v = f.read().rsplit(")", 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return None


def read_crumb(path):
    try:
        b = open(path, "rb").read()
        magic, progress, case = struct.unpack_from("<QQQ", b, 0)
        return {"progress": progress, "case": case, "suite": b[24:72].split(b"\0")[0].decode(errors="replace"),
                "note": b[72:328].split(b"\0")[0].decode(errors="replace")}
    except Exception:
        return {"progress": 0, "case": 0, "suite": "", "note": ""}


SAN_PATTERNS = [
    (r"ERROR: AddressSanitizer:? ([\w-]+)", "asan"), (r"runtime error: (.*)", "ubsan"), (r"ERROR: (LeakSanitizer): detected", "leak"),
    (r"WARNING: ThreadSanitizer: ([\w -]+)", "tsan"), (r"FATAL: ThreadSanitizer: ?(.*)", "tsan"), (r"(?m)^Error: (.*)$", "libstdc++-debug"),
    (r"(Conditional jump or move depends on uninitialised|Use of uninitialised|Invalid read|Invalid write|points to uninitialised|Invalid free|Mismatched free|Source and destination overlap)", "valgrind"),
    (r"terminate called after throwing an instance of '(.*)'", "terminate"), (r"(terminate called without an active exception|terminate called recursively)", "terminate"),
    (r"([^\n]*[Aa]ssert[^\n]*)", "assert"),
]


def classify(log, rc):
    for pat, kind in SAN_PATTERNS:
        m = re.search(pat, log)
        if m:
            return kind + ":" + re.sub(r"0x[0-9a-f]+|\d{4,}", "N", m.group(1))[:120].strip()
    return "signal:%d" % -rc if rc < 0 else "exit:%d" % rc


class Runner:
    def __init__(self, prop, plan, scratch, tier, seed):
        self.prop, self.plan, self.scratch, self.tier, self.seed = prop, plan, scratch, tier, seed
        self.n, self.lock = 0, threading.Lock()

    def env(self, cfg, kind, out, crumb, extra):
        e = {k: v for k, v in os.environ.items() if not k.startswith("VH_")}
        e.update(VERIF_SEED=str(self.seed), VH_OUT=out, VH_CRUMB=crumb, LC_ALL="C")
        leaks = "1" if self.plan.get("leaks", True) and "VH_NOLEAKS" not in extra else "0"
        e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=66:halt_on_error=1:detect_leaks=%s:detect_stack_use_after_return=%s:"
                             "hard_rss_limit_mb=6000:allocator_may_return_null=0:strict_string_checks=1:handle_abort=0:check_initialization_order=0:"
                             "alloc_dealloc_mismatch=1:malloc_context_size=6:max_allocation_size_mb=4000" % (leaks, "1" if cfg in UAR else "0"))
        e["LSAN_OPTIONS"] = "exitcode=67"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0"
        if kind == "valgrind":
            e["VH_VALGRIND"] = "1"
        if self.plan.get("locales"):
            e["LOCPATH"] = os.path.join(self.scratch, "locales")
        e.update(extra)
        return e

    def once(self, cfg, exe, scale, extra=None, args=None, cpu_mult=1.0):
        """one execution; returns dict(rc, log, lines, crumb, hang, wall)"""
        with self.lock:
            self.n += 1
            d = os.path.join(self.scratch, "run%d" % self.n)
        os.makedirs(os.path.join(d, "cwd"))
        out, crumb, log = (os.path.join(d, x) for x in ("out.jsonl", "crumb", "log"))
        kind = conf(cfg)[2]
        ex = dict(extra or {})
        ex.setdefault("VH_SCALE", "%.6g" % scale)
        if self.plan.get("digest"):
            ex["VH_DIGEST"] = os.path.join(d, "digest")
        ex["VH_TMP"] = os.path.join(d, "cwd")
        cmd = [exe] + (args or [])
        if kind == "valgrind":
            cmd = ["valgrind", "--quiet", "--error-exitcode=66", "--exit-on-first-error=yes", "--leak-check=no", "--track-origins=no",
                   "--max-stackframe=8000000"] + cmd
        elif kind == "tsan" and shutil.which("setarch"):
            cmd = ["setarch", "-R"] + cmd
        t0 = time.time()
        limit_cpu = CASE_CPU_S * self.plan.get("cpu_mult", 1) * cpu_mult * (4 if kind == "valgrind" else 1)
        hang = None
        with open(log, "wb") as lf:
            def pre():
                import resource
                os.setsid()
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if kind == "plain":
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            p = subprocess.Popen(cmd, stdout=open(os.path.join(d, "stdout"), "wb"), stderr=lf, stdin=subprocess.DEVNULL,
                                 env=self.env(cfg, kind, out, crumb, ex), cwd=os.path.join(d, "cwd"), preexec_fn=pre)
            last, last_cpu, last_wall = -1, 0.0, time.time()
            while True:
                try:
                    p.wait(0.2 if time.time() - t0 < 5 else 1.0)
                    break
                except subprocess.TimeoutExpired:
                    pass
                if kind == "fuzz":
                    if time.time() - t0 > RUN_WALL_S[self.tier]:
                        hang = "inconclusive: fuzzer over its wall clock limit"
                else:
                    pr, cpu = read_crumb(crumb)["progress"], proc_cpu(p.pid)
                    if pr != last:
                        last, last_wall = pr, time.time()
                        last_cpu = cpu if cpu is not None else last_cpu
                    elif cpu is not None and cpu - last_cpu > limit_cpu:
                        hang = "hang: %.0f s of CPU time in one case without progress" % (cpu - last_cpu)
                    elif time.time() - last_wall > CASE_WALL_S * (2 if kind == "valgrind" else 1):
                        hang = "hang: blocked for %d s in one case" % (time.time() - last_wall)
                    if time.time() - t0 > RUN_WALL_S[self.tier]:
                        hang = hang or "inconclusive: run over its wall clock limit"
                if hang:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)  # stray children
            except ProcessLookupError:
                pass
        lines = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        return {"rc": p.returncode, "log": open(log, errors="replace").read(), "lines": lines, "crumb": read_crumb(crumb), "hang": hang,
                "wall": time.time() - t0, "dir": d, "digest": ex.get("VH_DIGEST")}


def load_findings():
    """known-findings.txt: 'finding: property=<id> suite=<suite> key=<regex> <text>' suppress; 'fixed: ...' lines suppress nothing"""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) suite=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                r.append(m.groups())
    return r


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLAN[prop]
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=prop + "_", dir=os.path.join(VERIF, ".build"))
        self.violations, self.known, self.runs, self.problems = [], {}, [], []
        self.findings = load_findings()
        self.runner = Runner(prop, self.plan, self.scratch, tier, seed)
        self.lock = threading.Lock()

    # -------------------------------------------------------------- verdict bookkeeping
    def add(self, cfg, suite, case, key, msg, extra=None):
        full = "%s %s" % (key, msg)
        for fp, fs, fk, text in self.findings:
            if fp == self.prop and fs in ("*", suite) and re.search(fk, full):
                with self.lock:
                    self.known[text] = self.known.get(text, 0) + 1
                return False
        with self.lock:
            self.violations.append(dict(property=self.prop, config=cfg, suite=suite, case=case, seed=self.seed, key=key, msg=msg[:4000], tier=self.tier, **(extra or {})))
        return True

    def run_config(self, cfg, exe, scale):
        skip = []
        for attempt in range(12):
            extra = {"VH_SKIP": ",".join(skip)} if skip else {}
            r = self.runner.once(cfg, exe, scale, extra)
            summary = next((l["summary"] for l in r["lines"] if "summary" in l), None)
            for l in r["lines"]:
                if "violation" in l:
                    self.add(cfg, l["suite"], l["case"], l["violation"], l["msg"])
            if r["hang"]:
                c = r["crumb"]
                if r["hang"].startswith("inconclusive"):
                    self.problems.append("%s: %s (suite %s case %s)" % (cfg, r["hang"], c["suite"], c["case"]))
                    break
                r2 = self.runner.once(cfg, exe, scale, {"VH_SUITE": c["suite"], "VH_CASE": str(c["case"])})  # once more, alone
                if r2["hang"] and r2["hang"].startswith("hang"):
                    if self.add(cfg, c["suite"], c["case"], "hang", r["hang"] + " " + c["note"]):
                        break
                    skip.append("%s:%d" % (c["suite"], c["case"]))
                    continue
                self.problems.append("%s: %s, not reproduced (suite %s case %s)" % (cfg, r["hang"], c["suite"], c["case"]))
                break
            if summary is not None and r["rc"] in (0, 3):
                with self.lock:
                    self.runs.append((cfg, scale, summary, r))
                break
            # died
            if "LeakSanitizer has encountered a fatal error" in r["log"]:
                os.environ["VH_LSAN_OFF"] = "1"
                self.plan = dict(self.plan, leaks=False)
                self.runner.plan = self.plan
                continue
            c = r["crumb"]
            if c["suite"] == "" and summary is None and not re.search("Sanitizer|runtime error", r["log"]):
                self.problems.append("%s: harness did not start (rc %s): %s" % (cfg, r["rc"], r["log"][-800:]))
                break
            kind = classify(r["log"], r["rc"])
            if "hard rss limit" in r["log"] or r["rc"] == -9:
                kind = "memory-limit"
            case = c["case"] if summary is None else -1
            if not self.add(cfg, c["suite"], case, "crash:" + kind, c["note"] + "\n" + r["log"][-3500:]) and case >= 0:
                skip.append("%s:%d" % (c["suite"], c["case"]))
                continue
            break

    def run_fuzz(self, cfg, exe, runs):
        d = tempfile.mkdtemp(prefix="corpus_", dir=self.scratch)
        args = ["-runs=%d" % runs, "-seed=%d" % (self.seed & 0x7fffffff or 1), "-max_len=%d" % self.plan.get("fuzz_max_len", 1024), "-timeout=120", "-rss_limit_mb=4000",
                "-artifact_prefix=" + d + "/art_", "-print_final_stats=1", "-len_control=20", "-detect_leaks=0", d]
        r = self.runner.once(cfg, exe, 1, {"VH_NOLEAKS": "1"}, args=args)
        m = re.findall(r"stat::number_of_executed_units:\s+(\d+)", r["log"])
        cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", r["log"])
        execs = int(m[-1]) if m else 0
        if r["hang"]:
            self.problems.append("%s: %s" % (cfg, r["hang"]))
            return
        if r["rc"] != 0:
            arts = [os.path.join(d, a) for a in os.listdir(d) if a.startswith("art_")]
            data = open(arts[0], "rb").read().hex() if arts else ""
            vs = [l for l in r["lines"] if "violation" in l]
            if vs:
                self.add(cfg, vs[-1]["suite"], -1, vs[-1]["violation"], vs[-1]["msg"], {"fuzz_input": data})
            else:
                kind = "timeout" if "libFuzzer: timeout" in r["log"] else classify(r["log"], r["rc"])
                if kind == "timeout":
                    rr = self.runner.once(cfg, exe, 1, {"VH_NOLEAKS": "1"}, args=["-timeout=120"] + arts[:1])
                    if "libFuzzer: timeout" not in rr["log"]:
                        self.problems.append("%s: fuzz timeout, not reproduced" % cfg)
                        return
                self.add(cfg, r["crumb"]["suite"], -1, "crash:" + kind, r["log"][-3500:], {"fuzz_input": data})
            return
        with self.lock:
            self.runs.append((cfg, 1, {"evaluations": execs, "fuzz": True, "edges": int(cov[-1][0]) if cov else 0,
                                       "features": int(cov[-1][1]) if cov else 0, "corpus": int(cov[-1][2]) if cov else 0}, r))

    def compare_digests(self):
        """all plain/asan runs executed the same cases: their per-case result digests have to agree"""
        tabs = []
        for cfg, scale, s, r in self.runs:
            if r.get("digest") and os.path.exists(r["digest"]) and not s.get("fuzz"):
                b = open(r["digest"], "rb").read()
                tabs.append((cfg, struct.unpack("<%dQ" % (len(b) // 8), b)))
        self.digest_pairs = 0
        if len(tabs) < 2:
            return
        ref_cfg, ref = tabs[0]
        # position -> suite/case
        order = []
        for cfg, scale, s, r in self.runs:
            if cfg == ref_cfg:
                for name, v in s["suites"].items():
                    order += [(name, i) for i in range(v["cases"])]
        refmap = dict(zip(ref[0::2], zip(ref[1::2], range(len(ref) // 2))))
        for cfg, t in tabs[1:]:
            nbad = 0
            for k, d in zip(t[0::2], t[1::2]):
                if k in refmap:
                    self.digest_pairs += 1
                    if refmap[k][0] != d:
                        nbad += 1
                        if nbad <= 3:
                            suite, case = order[refmap[k][1]] if refmap[k][1] < len(order) else ("?", -1)
                            self.add(cfg, suite, case, "digest-mismatch", "results of %s and %s differ: %s" % (ref_cfg, cfg, self.trace_diff(ref_cfg, cfg, suite, case)),
                                     {"config2": ref_cfg})

    def trace_diff(self, a, b, suite, case):
        ts = []
        for cfg in (a, b):
            r = self.runner.once(cfg, self.build.bin[cfg], 1, {"VH_TRACE": "1", "VH_SUITE": suite, "VH_CASE": str(case)})
            ts.append([(l["trace"], l["value"], l["digest"]) for l in r["lines"] if "trace" in l])
        for x, y in zip(*ts):
            if x[2] != y[2]:
                return "first difference at %s: %s: %s, %s: %s" % (x[0], a, x[1], b, y[1])
        return "different number of results" if len(ts[0]) != len(ts[1]) else "not reproduced alone"

    # -------------------------------------------------------------- whole check
    def main(self):
        tier = self.plan[self.tier] if self.tier in self.plan else self.plan["quick"]
        cfgs = list(dict.fromkeys([c for c, _ in tier["runs"]] + [c for c, _ in tier.get("fuzz", [])]))
        self.build = Build(self.prop, self.plan, self.scratch)
        rc = 2
        try:
            for loc in self.plan.get("locales", []):  # best effort: the harness counts whether the locale was available
                d = os.path.join(self.scratch, "locales")
                os.makedirs(d, exist_ok=True)
                try:
                    src, charmap = loc.split(".")
                    own = os.path.join(VERIF, "harness", "locales", src)
                    run_cmd(["localedef", "-c", "-f", charmap, "-i", own if os.path.exists(own) else src, os.path.join(d, loc)], 120)
                except Exception:
                    pass
            self.build.build(cfgs)
            for cfg, src, text in self.build.api_errors:
                errs = [l for l in text.splitlines() if "error:" in l]
                self.add(cfg, "compile", -1, "api-compile", "the library builds but a use of its public interface that the property guarantees does not compile: "
                         + "\n".join(errs[:6]))
            for cfg, text in self.build.link_errors:
                errs = [l for l in text.splitlines() if re.search("multiple definition|duplicate symbol|undefined reference", l)]
                self.add(cfg, "link", -1, "link", "the translation units compile but do not link into one program: " + "\n".join(errs[:6]))
            with ThreadPoolExecutor(tier.get("parallel", NCPU)) as ex:
                fs = [ex.submit(self.run_config, c, self.build.bin[c], s) for c, s in tier["runs"] if c in self.build.bin]
                fs += [ex.submit(self.run_fuzz, c, self.build.bin[c], n) for c, n in tier.get("fuzz", []) if c in self.build.bin]
                for f in fs:
                    f.result()
            if self.plan.get("digest"):
                self.compare_digests()
            rc = self.verdict()
        except Inconclusive as e:
            print("ERROR property=%s no verdict: %s" % (self.prop, e))
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(self.scratch, ignore_errors=True)
        return rc

    def verdict(self):
        self.write_evidence()
        for text in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            shown = {}
            for v in self.violations:
                shown.setdefault((v["suite"], v["key"]), v)
            for i, v in enumerate(list(shown.values())[:8]):
                path = os.path.join(VERIF, "replays", "%s_%s_%s.json" % (self.prop, re.sub(r"\W", "_", v["suite"] or "x"), re.sub(r"\W", "_", v["key"])[:40]))
                json.dump(v, open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  [%s] suite=%s case=%s key=%s: %s" % (v["config"], v["suite"], v["case"], v["key"], v["msg"][:1500]))
            return 1
        if self.problems:
            for p in self.problems:
                print("INCONCLUSIVE property=%s %s" % (self.prop, p))
            return 2
        for cfg, scale, s, r in self.runs:
            if s.get("fuzz"):
                continue
            for name, v in s["suites"].items():
                if v["nontrivial"] == 0 and conf(cfg)[2] != "valgrind":
                    print("INCONCLUSIVE property=%s suite %s observed nothing in %s" % (self.prop, name, cfg))
                    return 2
        ev = sum(s["evaluations"] for _, _, s, _ in self.runs)
        print("OK property=%s tier=%s seed=%d runs=%d evaluations=%d wall=%.1fs" % (self.prop, self.tier, self.seed, len(self.runs), ev, time.time() - self.t0))
        return 0

    def write_evidence(self):
        suites, counters, samples, per_cfg, ev, checks = {}, {}, [], {}, 0, 0
        for cfg, scale, s, r in self.runs:
            ev += s["evaluations"]
            if s.get("fuzz"):
                per_cfg[cfg] = {"executions": s["evaluations"], "edges_covered": s["edges"], "features": s["features"], "corpus_units": s["corpus"], "wall_s": round(r["wall"], 2)}
                continue
            checks += s["checks"]
            per_cfg[cfg] = {"cases": s["evaluations"], "oracle_checks": s["checks"], "distinct_nontrivial": s["distinct_nontrivial"], "wall_s": round(r["wall"], 2)}
            for n, v in s["suites"].items():
                o = suites.setdefault(n, {"rule": v["rule"], "cases": 0, "distinct_nontrivial": 0})
                o["cases"] += v["cases"]
                o["distinct_nontrivial"] = max(o["distinct_nontrivial"], v["distinct_nontrivial"])  # the same cases are repeated per configuration
            for k, v in s["counters"].items():
                counters[k] = counters.get(k, 0) + v
            if not samples:
                samples = s["samples"]
        cov = {"evaluations": ev, "distinct_nontrivial": sum(v["distinct_nontrivial"] for v in suites.values()),
               "rule": "Each case is generated from (VERIF_SEED, suite, index); the same cases are repeated in every build configuration and counted once in distinct_nontrivial (distinct by the hash of all generator choices). Per suite: "
               + "; ".join("%s: %s" % (n, v["rule"]) for n, v in suites.items()),
               "samples": samples[:40], "suites": suites, "configurations": per_cfg, "oracle_checks": checks, "observed_events": counters}
        if self.plan.get("digest"):
            cov["digest_comparisons"] = getattr(self, "digest_pairs", 0)
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.plan.get("level", "exploration"), "coverage": cov,
             "assumptions": self.plan.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)


def replay(prop, path):
    v = json.load(open(path))
    c = Check(prop, v.get("tier", "quick"), v["seed"])
    try:
        cfgs = [v["config"]] + ([v["config2"]] if "config2" in v else [])
        c.build = Build(prop, c.plan, c.scratch)
        c.build.build(cfgs)
        if v["key"] == "link":
            print("links now" if not c.build.link_errors else c.build.link_errors[0][1][:4000])
            return 1 if c.build.link_errors else 0
        if v["key"] == "api-compile":
            print("compiles now" if not c.build.api_errors else c.build.api_errors[0][2])
            return 1 if c.build.api_errors else 0
        exe = c.build.bin[v["config"]]
        if v.get("fuzz_input") is not None:
            f = os.path.join(c.scratch, "input")
            open(f, "wb").write(bytes.fromhex(v["fuzz_input"]))
            r = c.runner.once(v["config"], exe, 1, {"VH_NOLEAKS": "1"}, args=[f])
        elif "config2" in v:
            print(c.trace_diff(v["config2"], v["config"], v["suite"], v["case"]))
            return 0
        else:
            ex = {"VH_SUITE": v["suite"]}
            if v["case"] >= 0:
                ex["VH_CASE"] = str(v["case"])
            r = c.runner.once(v["config"], exe, 1, ex)
        for l in r["lines"]:
            if "violation" in l:
                print("reproduced: %s: %s" % (l["violation"], l["msg"]))
        print(r["log"][-4000:])
        print("rc", r["rc"], r["hang"] or "")
        return 0 if r["rc"] == 0 else 1
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return Check(prop, tier, seed).main()
    except Exception as e:  # an error of the check itself
        import traceback
        traceback.print_exc()
        print("ERROR property=%s check broke: %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())

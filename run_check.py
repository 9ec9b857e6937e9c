#!/usr/bin/env python3
"""Runner for the runtime-monitoring checks.

usage: run_check.py PROPERTY [--tier quick|thorough] [--seed N] [--repo DIR] [--jobs N] [--case NAME] [--tu NAME]

Compiles the harness translation units of one property against the current
working tree of the repository (default /repo), with sanitizers, executes every
monitored workload ("case") in a process of its own, collects the monitors'
event logs, matches violations against known_findings.json and writes
evidence/<PROPERTY>.json.

exit 0  property held on everything that was explored
exit 1  violated: a line "VIOLATION property=<id> replay=<path>" is printed
exit 2  error of the check (does not compile, nothing observed, ...)
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
DUNE = "/opt/dune/venv"

sys.path.insert(0, HERE)
from checks import PROPERTIES  # noqa: E402

LIBS = [f"{DUNE}/lib/libdunegrid.a", f"{DUNE}/lib/libdunegeometry.a", f"{DUNE}/lib/libdunecommon.a",
        "-llapack", "-lblas", "-l:libtbb.so.12", "-lpthread"]
COMMON = ["-std=gnu++20", "-DHAVE_CONFIG_H", "-D_GLIBCXX_ASSERTIONS", "-DDUNE_CHECK_BOUNDS", "-UNDEBUG", "-w", "-g1", "-fno-omit-frame-pointer"]
MODES = {
    # address + undefined behaviour, uninitialised automatic storage filled with a pattern
    "asan": ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "asan-o1": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    # no compiler instrumentation, run under valgrind (definedness of every value, leaks)
    "memcheck": ["-O1", "-gdwarf-4"],
}
# "python": a Python program which compiles the modules of the bindings itself (harness/py/vfbuilder.py)
PYTHON_ENV = {"HOME": "/root", "VIRTUAL_ENV": DUNE, "PATH": DUNE + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
              "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONMALLOC": "malloc", "PYTHONHASHSEED": "0", "DUNE_LOG_LEVEL": "warning",
              "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
              "OMPI_MCA_btl": "self,vader", "OMPI_MCA_rmaps_base_oversubscribe": "1",
              "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:hard_rss_limit_mb=6000:max_malloc_fill_size=4096:malloc_fill_byte=190"}


def python_preload():
    libs = []
    for lib in ("libasan.so", "libstdc++.so.6"):  # the latter, because ASan has to find the exception functions it intercepts
        libs.append(subprocess.run(["g++", "-print-file-name=" + lib], capture_output=True, text=True).stdout.strip())
    return ":".join(libs)


PREFIX = {"memcheck": ["valgrind", "-q", "--tool=memcheck", "--error-exitcode=98", "--leak-check=full", "--show-leak-kinds=definite",
                       "--errors-for-leak-kinds=definite", "--num-callers=20", "--main-stacksize=60000000"]}
CLANG_ONLY = {"asan": ["-ftrivial-auto-var-init=pattern"], "asan-o1": ["-ftrivial-auto-var-init=pattern"], "tsan": [], "memcheck": []}


def include_flags(repo):
    return [f"-I{HARNESS}", f"-I{repo}", "-isystem", f"{DUNE}/include"]


class TU:
    def __init__(self, spec):
        self.name = spec["name"]
        self.src = os.path.join(HARNESS, spec["src"])
        self.flags = spec.get("flags", [])
        self.libs = spec.get("libs", [])
        self.mode = spec.get("mode", "asan")
        self.thorough_only = spec.get("thorough_only", False)
        self.env = spec.get("env", {})
        self.repeat = spec.get("repeat", 1)
        self.crash_only = spec.get("crash_only", False)  # workload of another property: only what the sanitizers report counts
        self.binary = None
        self.cmd = None  # other command than the binary
        self.error = None


# Additional (crash-only) workloads are not started once a quick run has used this much wall time, so that the
# check gives its answer in time on a slow or busy machine. What was left out is recorded in the evidence.
START = time.time()
QUICK = True
SKIPPED = "skipped: time budget"


def optional_over_budget(tu, seconds):
    return QUICK and tu.crash_only and time.time() - START > seconds


def compile_tu(tu, repo, workdir, cache):
    """Returns (binary, error text). clang++ first (fast), g++ as a fallback."""
    if optional_over_budget(tu, 330):
        return None, SKIPPED
    if tu.mode == "python":
        tu.env = dict(PYTHON_ENV, **tu.env)
        tu.cmd = [DUNE + "/bin/python", tu.src, "--repo", repo, "--build", os.path.join(workdir, tu.name + "_py")]
        tu.env["LD_PRELOAD"] = python_preload()
        return tu.src, None
    base = COMMON + MODES[tu.mode] + include_flags(repo) + tu.flags
    errs = []
    for cxx in ("clang++", "g++"):
        flags = base + (CLANG_ONLY[tu.mode] if cxx == "clang++" else [])
        key = None
        if cache:
            pre = subprocess.run([cxx] + flags + ["-E", "-P", tu.src], capture_output=True)
            if pre.returncode == 0:
                h = hashlib.sha256()
                h.update(pre.stdout); h.update(" ".join([cxx] + flags + tu.libs).replace(repo + " ", "R ").encode())
                key = os.path.join(cache, h.hexdigest())
                if os.path.exists(key):
                    return key, None
        out = os.path.join(workdir, tu.name + ".bin")
        t = time.time()
        try:
            p = subprocess.run([cxx] + flags + [tu.src, "-o", out] + tu.libs + LIBS, capture_output=True, text=True,
                               timeout=700)
        except subprocess.TimeoutExpired:
            errs.append(f"{cxx}: compile timeout"); continue
        if p.returncode == 0:
            if os.environ.get("VF_VERBOSE"):
                print(f"compiled {tu.name} with {cxx} in {time.time()-t:.1f}s", flush=True)
            if key:
                shutil.copy(out, key + ".tmp"); os.replace(key + ".tmp", key)
            return out, None
        errs.append(f"{cxx}: " + "\n".join([l for l in p.stderr.splitlines() if "error" in l or "undefined" in l][:12]))
    return None, "\n".join(errs)


def limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 10))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, 64 << 20))
    return f


def classify(rc, err):
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        return m.group(2)
    if "WARNING: ThreadSanitizer" in err:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
        return m.group(1).strip().replace(" ", "-")
    m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid (?:read|write|free)|Mismatched free|Syscall param|Source and destination overlap|[\d,]+ (?:\([^)]*\) )?bytes in [\d,]+ blocks are definitely lost)", err)
    if m:
        return "memcheck-" + re.sub(r"[^A-Za-z]+", "-", m.group(1)).strip("-").lower()
    m = re.search(r"runtime error: (.{0,60})", err)
    if m:
        return "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|[0-9]+", "", m.group(1)).lower()).strip("-")[:40]
    if "Assertion" in err:
        return "assertion"
    if rc == -24:
        return "hang"
    return f"signal{-rc}" if rc < 0 else f"exit{rc}"


def run_case(tu, case, seed, thorough, workdir, rep):
    if optional_over_budget(tu, 540):
        return None
    log = os.path.join(workdir, hashlib.md5(f"{tu.name}|{case}|{rep}".encode()).hexdigest() + ".log")
    cmd = PREFIX.get(tu.mode, []) + (tu.cmd or [tu.binary]) + ["--seed", str(seed + 1000 * rep), "--out", log, "--case", case] + (["--thorough"] if thorough else [])
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:check_initialization_order=1:strict_init_order=1:hard_rss_limit_mb=6000:allocator_may_return_null=0:max_malloc_fill_size=4096:malloc_fill_byte=190:detect_invalid_pointer_pairs=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    env.update(tu.env)
    cpu = 3000 if thorough else 240

    def once():
        if os.path.exists(log):
            os.unlink(log)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=workdir,
                               preexec_fn=limits(cpu), timeout=5400 if thorough else 780 if tu.mode == "python" else 420)
            return p.returncode, p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return -24, "wall clock watchdog"
    rc, err = once()
    if rc == -24:  # watchdog: one more chance before it counts
        rc, err = once()
    res = {"tu": tu.name, "case": case, "violations": [], "obs": {}, "distinct": 0, "samples": [], "ended": False, "cmd": cmd, "rc": rc}
    if os.path.exists(log):
        for line in open(log, errors="replace"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "violation" in d:
                res["violations"].append((d["violation"], d.get("detail", "")))
            elif "end" in d:
                res["ended"] = True
                res["obs"] = d["obs"]; res["distinct"] = d["distinct"]; res["samples"] = d["samples"]
        os.unlink(log)
    if tu.crash_only:
        res["obs"]["foreign_verdicts_ignored"] = len(res["violations"])
        res["violations"] = []
    if rc != 0 or not res["ended"]:
        kind = classify(rc, err)
        if tu.mode == "python" and kind == "exit4":
            res["error"] = err[:1500]
        elif kind == "exit3":
            res["error"] = "harness usage error " + err[:300]
        else:
            res["violations"].append((f"{case}:crash:{kind}", err[:3000]))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--case"); ap.add_argument("--tu")
    a = ap.parse_args()
    global QUICK
    thorough = a.tier == "thorough"
    QUICK = not thorough
    skipped = []
    t0 = time.time()
    spec = PROPERTIES[a.prop]
    tus = [TU(s) for s in spec["tus"]]
    tus = [t for t in tus if (thorough or not t.thorough_only) and (not a.tu or t.name == a.tu)]
    cache = os.environ.get("VF_CACHE")
    if cache:
        os.makedirs(cache, exist_ok=True)
    workdir = tempfile.mkdtemp(prefix="vf_")
    errors, results = [], []
    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            pending = {ex.submit(compile_tu, t, a.repo, workdir, cache): t for t in tus}
            runs = {}
            while pending or runs:
                done, _ = cf.wait(list(pending) + list(runs), return_when=cf.FIRST_COMPLETED)
                for f in done:
                    if f in pending:
                        t = pending.pop(f)
                        t.binary, t.error = f.result()
                        if t.error == SKIPPED:
                            skipped.append(t.name)
                            continue
                        if t.error:
                            errors.append(f"{t.name}: {t.error}")
                            continue
                        lst = subprocess.run((t.cmd or [t.binary]) + ["--list"] + (["--thorough"] if thorough else []), capture_output=True, text=True,
                                             env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", **{k: v for k, v in t.env.items() if k.startswith("VF_")}))
                        cases = lst.stdout.split("\n")
                        cases = [c for c in cases if c and (not a.case or c == a.case)]
                        if not cases and not a.case:
                            errors.append(f"{t.name}: no cases listed (rc={lst.returncode}) {lst.stderr[:500]}")
                        for c in cases:
                            for rep in range(t.repeat * (3 if thorough and t.repeat > 1 else 1)):
                                runs[ex.submit(run_case, t, c, a.seed, thorough, workdir, rep)] = (t, c)
                    else:
                        t, c = runs.pop(f)
                        r = f.result()
                        if r is None:
                            skipped.append(f"{t.name}/{c}")
                            continue
                        results.append(r)
                        if "error" in r:
                            errors.append(f"{r['tu']}/{r['case']}: {r['error']}")
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == a.prop and k.get("status") == "open"]
    new, seen_known = {}, {}
    for r in results:
        for key, detail in r["violations"]:
            full = f"{r['tu']}/{key}"
            k = next((k for k in known if re.fullmatch(k["key"], full)), None)
            if k:
                seen_known[k["key"]] = k
            elif full not in new:
                new[full] = {"key": full, "detail": detail, "tu": r["tu"], "case": r["case"], "cmd": r["cmd"][1:]}

    obs = {}
    for r in results:
        for k, v in r["obs"].items():
            obs[k] = obs.get(k, 0) + v
    evaluations = obs.get("checks", 0)
    distinct = sum(r["distinct"] for r in results)
    if not new:
        for r in results:
            if r["ended"] and r["obs"].get("checks", 0) == 0:
                errors.append(f"{r['tu']}/{r['case']}: monitor observed nothing")
        if not a.case and distinct == 0 and not errors:
            errors.append("no non-trivial state observed")
    samples = [{"tu": r["tu"], "case": r["case"], "observed": r["samples"][:3]} for r in results if r["samples"]]
    samples.sort(key=lambda s: hashlib.md5((s["tu"] + s["case"]).encode()).hexdigest())
    evidence = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": spec["rule"],
            "samples": samples[:12],
            "cases_run": len(results), "translation_units": sorted({r["tu"] for r in results}),
            "events_by_kind": {k: v for k, v in sorted(obs.items()) if k != "checks"},
            "sanitizers": sorted({t.mode for t in tus}),
            **({"skipped_for_time": sorted(skipped)} if skipped else {}),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if not a.case and not a.tu:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    for e in errors[:20]:
        print("ERROR:", e)
    slow = sorted(results, key=lambda r: -r["obs"].get("cpu_ms", 0))[:5]
    print(f"{a.prop}: {len(results)} cases, {evaluations} oracle evaluations, {distinct} distinct states, "
          f"{len(new)} new violations, {len(errors)} errors, {evidence['wall_s']}s; slowest: "
          + ", ".join(f"{r['tu']}/{r['case']}={r['obs'].get('cpu_ms',0)}ms" for r in slow))
    if new:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{a.prop}.json")
        vs = list(new.values())
        with open(path, "w") as f:
            json.dump({"property": a.prop, "seed": a.seed, "tier": a.tier,
                       "replay": [f"python3 /verif/run_check.py {a.prop} --seed {a.seed} --tier {a.tier} --tu {v['tu']} --case '{v['case']}'" for v in vs[:20]],
                       "violations": vs[:200]}, f, indent=1)
        for v in vs[:12]:
            print(f"  violated: {v['key']}: {v['detail'][:400]}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())

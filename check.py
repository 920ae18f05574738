#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs of the real code.

  check.py PROPERTY [--tier quick|thorough] [--seconds S] [--runs N]
  check.py --replay FILE [--log]     rebuilds from /repo and replays a recorded failure
  check.py --build                   builds every executable (setup)

Exit 0: no run violated the property.  Exit 1: a violation, with a line
VIOLATION property=<id> replay=<path>.  Exit 2: the check itself failed.
"""
import hashlib, json, os, subprocess, sys, time, signal, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
JOBS = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, os.path.join(VERIF, "tools"))
os.environ["REPO"] = REPO
os.environ["BROWSER_JS"] = os.path.join(VERIF, "sim", "browser.mjs")
from plan import PLAN, LEVEL_NOTE, COMPONENTS  # noqa: E402

CXX = os.environ.get("CXX", "g++")
BASE = ["--std=c++20", "-pthread", "-g", "-w", "-I" + os.path.join(VERIF, "sim")]
SCEN = ["-O1", "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-include", "cstdint", "-include", "algorithm"]


# Units of the race build (see sim/race.cpp): instrumented for ThreadSanitizer, linked with a runtime of our own
RACE_UNITS = {"races"}
LIBS = {"tls": ["-lssl", "-lcrypto"]}
RACE = ["-O1", "-fno-inline", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-include", "cstdint", "-include", "algorithm"]
RACE_CALLS = {n: "race_" + n for n in ("memcpy", "memmove", "memset", "memcmp", "memchr", "strlen")}
RACE_CALLS.update({"_ZdlPv": "race_delete", "_ZdlPvm": "race_delete_sized", "__cxa_allocate_exception": "race_allocate_exception",
                   "__cxa_guard_acquire": "race_guard_acquire", "__cxa_guard_release": "race_guard_release", "__cxa_guard_abort": "race_guard_abort",
                   "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_": "race_rb_insert",
                   "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_": "race_rb_erase"})


def harness_error(text):
    print("CHECK-ERROR " + text)
    sys.exit(2)


def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as i:
            h.update(i.read())
    return h.hexdigest()[:20]


def compile_jobs(jobs):
    """jobs: list of (target, [command, ...]); builds the missing ones in parallel, atomically."""
    running = []
    for target, command in jobs:
        if os.path.exists(target):
            continue
        tmp = "%s.%d.tmp" % (target, os.getpid())
        log = open(tmp + ".log", "w")
        running.append((target, tmp, subprocess.Popen([tmp if c == "@OUT@" else c for c in command], stdout=log, stderr=subprocess.STDOUT)))
    for target, tmp, p in running:
        if p.wait() != 0:
            text = open(tmp + ".log").read()
            harness_error("cannot build %s:\n%s" % (os.path.basename(target), "\n".join(l for l in text.splitlines() if "error" in l or "undefined" in l)[:3000]))
        os.rename(tmp, target)
        os.unlink(tmp + ".log")


def build(units):
    """Returns {unit: executable}, rebuilt whenever anything it is made from differs."""
    os.makedirs(BUILD, exist_ok=True)
    headers = glob.glob(REPO + "/*.hpp") + glob.glob(REPO + "/tls/*.hpp")
    kernel = sorted(glob.glob(VERIF + "/sim/*"))
    scen = glob.glob(VERIF + "/scen/*.hpp")
    kd = digest(kernel, CXX)
    kobjs = {n: os.path.join(BUILD, "%s-%s.o" % (n, kd)) for n in ("kernel", "os", "runner") + (("race",) if RACE_UNITS & set(units) else ())}
    jobs = [(o, [CXX] + BASE + ["-O2", "-c", "%s/sim/%s.cpp" % (VERIF, n), "-o", "@OUT@"]) for n, o in kobjs.items()]
    exes, links, raced = {}, [], []
    for u in units:
        src = "%s/scen/%s.cpp" % (VERIF, u)
        flags = RACE if u in RACE_UNITS else SCEN
        d = digest(headers + kernel + scen + [src], " ".join([CXX] + BASE + flags + sorted(RACE_CALLS)))
        obj, exe = os.path.join(BUILD, "%s-%s.o" % (u, d)), os.path.join(BUILD, "%s-%s" % (u, d))
        if not os.path.exists(exe):
            jobs.append((obj, [CXX] + BASE + flags + ["-I" + REPO, "-c", src, "-o", "@OUT@"]))
            if u in RACE_UNITS:
                raced.append((obj, exe))
            else:
                links.append((exe, [CXX, "-fsanitize=address", obj] + [kobjs[n] for n in ("kernel", "os", "runner")] + ["-o", "@OUT@", "-ldl", "-rdynamic", "-pthread"] + LIBS.get(u, [])))
        exes[u] = exe
    compile_jobs(jobs)
    if raced:
        # The simulator gets its own copies of all templates, those of the scenario are instrumented
        simobj = os.path.join(BUILD, "sim-%s.o" % kd)
        compile_jobs([(simobj + ".joined.o", ["ld", "-r", "--force-group-allocation"] + list(kobjs.values()) + ["-o", "@OUT@"])])
        names = [l.split()[-1] for l in fresh(["nm", simobj + ".joined.o"]).stdout.splitlines() if l.split()[-2] in ("W", "V", "u")]
        local = ["--localize-symbol=" + n for n in names if not n.startswith(("__", "_Zn", "_Zd"))]
        with open(simobj + ".args", "w") as f:
            f.write("\n".join(local))
        compile_jobs([(simobj, ["objcopy", "@" + simobj + ".args", simobj + ".joined.o", "@OUT@"])])
        for obj, exe in raced:
            compile_jobs([(obj + ".calls.o", ["objcopy"] + ["--redefine-sym=%s=%s" % x for x in RACE_CALLS.items()] + [obj, "@OUT@"])])
            links.append((exe, [CXX, obj + ".calls.o", simobj, "-o", "@OUT@", "-ldl", "-rdynamic", "-pthread"]))
    compile_jobs(links)
    # old builds take much space
    keep = set(exes.values()) | set(kobjs.values())
    for f in glob.glob(BUILD + "/*"):
        if f not in keep and (f.endswith((".o", ".args")) or time.time() - os.path.getmtime(f) > 3 * 3600):
            try:
                os.unlink(f)
            except OSError:
                pass
    return exes


def load_known(prop):
    """Entries 'finding: property=<id> scenario=<name> class=<class> <what fails>'."""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop):
                f = dict(p.split("=", 1) for p in line.split() if "=" in p)
                known.append((f.get("scenario", "*"), f["class"], line.split(" ", 4)[-1].strip()))
    return known


def search(tasks, seed, seconds, runs, known):
    """tasks: list of (exe, scenario, share).  Each worker process searches one executable."""
    procs = []
    groups = {}
    for exe, scen, share in tasks:
        groups.setdefault(exe, []).append((scen, share))
    total = sum(t[2] for t in tasks)
    # Workers are dealt to executables one after another in time, all workers on one at a time
    results, violations = [], []
    for exe, scens in groups.items():
        for scen, share in scens:
            budget = max(seconds * share / total, min(5, seconds))
            procs = []
            for w in range(JOBS):
                cmd = [exe, "search", "--scenario", scen, "--seed", str(seed), "--start", str(w), "--stride", str(JOBS), "--seconds", "%.2f" % budget]
                if runs:
                    cmd += ["--runs", str(max(1, int(runs * share / total) // JOBS))]
                for k in known:
                    if k[0] in ("*", scen):
                        cmd += ["--known", k[1]]
                procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
            pending = list(procs)
            grace = None
            while pending:
                for p in list(pending):
                    if p.poll() is None:
                        continue
                    pending.remove(p)
                    out, err = p.communicate()
                    try:
                        r = json.loads(out.strip().splitlines()[-1])
                    except Exception:
                        harness_error("search of %s ended with %s: %s %s" % (scen, p.returncode, out[-300:], err[-300:]))
                    if "harness_error" in r:
                        for q in pending:
                            q.kill()
                        harness_error(r["harness_error"])
                    r["scenario"] = scen
                    results.append(r)
                    if "violation" in r:
                        violations.append((exe, r["violation"]))
                        grace = grace or time.time() + 3
                if grace and time.time() > grace:
                    for q in pending:
                        q.kill()
                        q.communicate()
                    break
                time.sleep(0.02)
            if violations:
                return results, violations
    return results, violations


def fresh(cmd, timeout=300):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def determinism(exe, scen, seed, n=12):
    """The same seeds in two separate processes must give the same event logs."""
    cmd = [exe, "search", "--scenario", scen, "--seed", str(seed), "--runs", str(n), "--seconds", "60", "--hashes"]
    a, b = [json.loads(fresh(cmd).stdout.splitlines()[-1]) for _ in range(2)]
    return len(a.get("hashes", [])), a.get("hashes") == b.get("hashes")


def merge(results):
    total = {k: 0 for k in ("runs", "nontrivial", "distinct", "sched_distinct", "steps", "sim_seconds")}
    counters = {}
    for r in results:
        for k in total:
            total[k] += r[k]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    return total, counters


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        build(sorted({u for p in PLAN.values() for u, _, _ in p["scenarios"]}))
        return 0
    if args and args[0] == "--replay":
        scen = json.load(open(args[1]))["scenario"]
        unit = next(u for p in PLAN.values() for u, s, _ in p["scenarios"] if s == scen)
        return subprocess.call([build([unit])[unit], "replay"] + args[1:])
    prop = args[0]
    opts = dict(zip(args[1::2], args[2::2]))
    tier = opts.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    plan = PLAN[prop]
    seconds = float(opts.get("--seconds") or (plan.get("quick", 60) if tier == "quick" else plan.get("thorough", 600)))
    # A quick check always explores the same seeds (unless the machine is too slow), a thorough one as many as it can
    runs = int(opts.get("--runs") or (plan.get("quick_runs", 24000) if tier == "quick" else 0))
    t0 = time.time()
    exes = build(sorted({u for u, _, _ in plan["scenarios"]}))
    build_s = time.time() - t0
    known = load_known(prop)
    t1 = time.time()
    results, violations = search([(exes[u], s, w) for u, s, w in plan["scenarios"]], seed, seconds, runs, known)
    search_s = time.time() - t1
    status, report = 0, None
    if violations:
        os.makedirs(OUT, exist_ok=True)
        for exe, v in sorted(violations, key=lambda x: x[1]["cls"].startswith(("asan", "signal", "cpu"))):
            path = os.path.join(OUT, "%s-%s-%d.json" % (prop, v["scenario"], v["seed"]))
            r = fresh([exe, "verify", v["scenario"], str(v["seed"]), prop, path, str(plan.get("minimise", 40))])
            if r.returncode != 1:
                print("note: " + r.stdout.strip()[-500:])
                continue
            again = fresh([exe, "replay", path])
            if again.returncode != 1:
                print("note: replay of %s differs: %s" % (path, again.stdout.strip()[-500:]))
                continue
            report = (path, r.stdout.strip(), v)
            break
        if report:
            status = 1
        else:
            status = 2
    total, counters = merge(results)
    checked, same = 0, True
    if status == 0:
        for u, s, _ in plan["scenarios"]:
            n, ok = determinism(exes[u], s, seed)
            checked += n
            if not ok:
                print("CHECK-ERROR runs of %s are not repeatable" % s)
                status = 2
    known_hits = {}
    for r in results:
        for k, v in r["known"].items():
            known_hits[k] = known_hits.get(k, 0) + v
    if status == 0:
        for scen, cls, what in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    per_hour = 3600 / max(search_s, 0.001)
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault.")}
    samples = []
    first = plan["scenarios"][0]
    one = fresh([exes[first[0]], "run", first[1], str((seed << 32) + 1), "log"])
    samples.append({"scenario": first[1], "seed": (seed << 32) + 1, "event_log_head": one.stdout.splitlines()[:40]})
    for r in results[:6]:
        samples.append({"scenario": r["scenario"], "first_seed": r["first_seed"], "runs": r["runs"], "wall_s": r["wall"]})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"], "distinct_nontrivial": total["distinct"],
            "rule": "Each run is one execution of a scenario decided by one 64-bit seed. " + plan["rule"] +
                    " Distinct: the hash over the complete event log (every choice, system call, byte count and scheduling decision) differs.",
            "samples": samples,
            "scenarios": {s: counters.get("runs." + s, 0) for _, s, _ in plan["scenarios"]},
            "nontrivial_runs": total["nontrivial"],
            "distinct_interleavings": total["sched_distinct"],
            "distinct_interleavings_measure": "hashes of the sequence of fiber switches and blocking operations, counted per worker process",
            "interleaving_growth": [r["growth"] for r in results[:1]],
            "runs_per_hour": int(total["runs"] * per_hour), "seeds_per_hour": int(total["runs"] * per_hour),
            "simulated_seconds": round(total["sim_seconds"], 3),
            "simulated_seconds_per_wall_second": round(total["sim_seconds"] / max(search_s, 0.001), 1),
            "scheduler_steps": total["steps"],
            "faults_injected": faults,
            "probes": {k: v for k, v in counters.items() if not k.startswith(("fault.", "runs."))},
            "components": plan.get("components", COMPONENTS),
            "oracle": plan["oracle"],
            "determinism_checked_runs": checked,
            "known_findings_hit": known_hits,
            "build_s": round(build_s, 1), "search_s": round(search_s, 1),
        },
        "assumptions": LEVEL_NOTE,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if status == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(evidence, o, indent=1)
    print("%s: %d runs (%d non-trivial, %d distinct) in %.0f s, %.0f simulated seconds, %d fault injections" %
          (prop, total["runs"], total["nontrivial"], total["distinct"], search_s, total["sim_seconds"], sum(faults.values())))
    if status == 1:
        path, text, v = report
        print(text)
        print("seed %d of scenario %s; minimised choices and event trace in %s; replay with: python3 check.py --replay %s --log" % (v["seed"], v["scenario"], path, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif status == 2:
        print("CHECK-ERROR violations found but none could be reproduced: %s" % [v for _, v in violations][:3] if violations else "CHECK-ERROR")
    return status


if __name__ == "__main__":
    sys.exit(main())

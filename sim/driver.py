"""
Runs a check: shards in fresh interpreters, minimisation, replay, evidence.

  check.py ID                  quick or thorough run (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE       repeat a reported violation
"""
import gc
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REAL_PREFIXES = ["/repo", "/opt", "/usr", "/lib", "/lib64", "/etc", "/proc", "/sys",
                 "/bin", "/root", VERIF]


def child_env(ext):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = env.get("SIM_HASHSEED", "0")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["MPLBACKEND"] = "Agg"
    env["XBOA_EXT_DIR"] = ext or ""
    env["PYTHONPATH"] = VERIF
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = env["MKL_NUM_THREADS"] = "1"
    env["PYTHONWARNINGS"] = "ignore"
    env["MALLOC_PERTURB_"] = "165"      # freed memory is not what it was
    return env


def load_check(prop):
    """in a child: install the seams, then import the code under test"""
    from . import seams, native, isolate
    prefixes = list(REAL_PREFIXES) + [sys.prefix, sys.base_prefix]
    ext = os.environ.get("XBOA_EXT_DIR")
    if ext:
        prefixes.append(ext)
    sys.path.insert(0, "/repo")
    seams.install(prefixes)
    native.use(ext)
    sys.meta_path.insert(0, isolate.CachedFinder())
    from checks.plan import FAKE_ROOT
    if prop in FAKE_ROOT:
        from . import fakeroot
        fakeroot.install()
    import xboa
    assert os.path.dirname(os.path.dirname(os.path.abspath(xboa.__file__))) == "/repo"
    mod = importlib.import_module("checks." + prop.lower())
    check = mod.CHECK
    check.prepare()
    return check


def plain_crashes():
    """the ROOT library handles crashes by starting a debugger"""
    for name in ("SIGSEGV", "SIGBUS", "SIGILL", "SIGFPE", "SIGABRT"):
        signal.signal(getattr(signal, name), signal.SIG_DFL)


def seed_of(base, prop, run):
    return "%s/%s/%s" % (base, prop, run)


# ---------------------------------------------------------------- in a shard
def shard_main(prop, base, shard, nshards, runs, cap, out):
    from .choices import Choices, shrink
    from .runner import run_once
    t0 = time.time()
    check = load_check(prop)
    gc.collect()
    gc.freeze()
    gc.disable()
    tload = time.time() - t0
    stats = {"runs": 0, "steps": 0, "sim_time": 0.0, "switches": 0, "faults": {},
             "probes": {}, "sigs": [], "nontrivial": [], "violation": None,
             "error": None, "samples": [], "faulted_runs": 0, "load_s": tload}
    progress = open(out + ".progress", "w")
    t0 = time.time()
    for run in range(shard, runs, nshards):
        if time.time() - t0 > cap:
            break
        progress.seek(0)
        progress.write("%d\n" % run)
        progress.flush()
        plain_crashes()
        res = run_once(check, Choices(seed=seed_of(base, prop, run)))
        sim = res.sim
        stats["runs"] += 1
        stats["steps"] += sim.steps
        stats["sim_time"] += sim.now
        stats["switches"] += sim.switches
        stats["longest"] = max(stats.get("longest", 0), sim.steps)
        for k, v in sim.fault_counts.items():
            stats["faults"][k] = stats["faults"].get(k, 0) + v
        for k, v in sim.probes.items():
            stats["probes"][k] = stats["probes"].get(k, 0) + v
        if sim.fault_counts:
            stats["faulted_runs"] += 1
        stats["sigs"].append(res.sig)
        if getattr(sim, "nontrivial", False):
            stats["nontrivial"].append(res.sig)
        if len(stats["samples"]) < 2:
            stats["samples"].append({
                "run": run, "seed": seed_of(base, prop, run), "steps": sim.steps,
                "task_switches": sim.switches, "faults": dict(sim.fault_counts),
                "case": (getattr(sim, "summary", None) or [])[:40]})
        if res.error:
            stats["error"] = {"run": run, "text": res.error}
            break
        if res.violation:
            stats["violation"] = report(check, prop, base, run, res, out)
            break
        res = sim = None
        gc.collect()        # what a run leaves behind must not end in a later one
    stats["wall"] = time.time() - t0
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(stats, f)
    os.replace(tmp, out)


def vkey(violation):
    """violations of the same class"""
    return violation[0]


def report(check, prop, base, run, res, out):
    from .choices import Choices, shrink
    from .runner import run_once
    kind = vkey(res.violation)
    end = time.time() + float(os.environ.get("SIM_SHRINK_S", "20"))
    progress_t = [time.time()]

    def fails(cand):
        if time.time() - progress_t[0] > 2:
            progress_t[0] = time.time()
            with open(out + ".progress", "w") as f:
                f.write("%d shrinking %f\n" % (run, time.time()))
        r = run_once(check, Choices(feed=cand))
        gc.collect()
        if r.violation and vkey(r.violation) == kind:
            return r.choices
        return None
    best = shrink(res.choices, fails, 2000, lambda: time.time() > end)
    return {"run": run, "kind": kind, "message": res.violation[1],
            "choices": res.choices, "minimised": best}


# ---------------------------------------------------------------- replay
def replay_main(path, out):
    """repeat a run from its replay file; writes what happened to out"""
    with open(path) as f:
        spec = json.load(f)
    check = load_check(spec["property"])
    from .choices import Choices
    from .runner import run_once
    gc.collect()
    gc.freeze()
    gc.disable()
    for k, run in enumerate(spec.get("prefix", [])):
        plain_crashes()
        res = run_once(check, Choices(seed=seed_of(spec["seed"], spec["property"], run)))
        res = None
        gc.collect()
    if spec.get("choices") is not None:
        ch = Choices(feed=spec["choices"])
    else:
        ch = Choices(seed=seed_of(spec["seed"], spec["property"], spec["run"]))
    plain_crashes()
    res = run_once(check, ch, record=True)
    with open(out, "w") as f:
        json.dump({"violation": res.violation, "error": res.error,
                   "trace": res.log, "steps": res.sim.steps, "sig": res.sig,
                   "choices": res.choices,
                   "summary": getattr(res.sim, "summary", None),
                   "faults": [str(x[:3]) for x in
                              (res.sim.faults.fired if res.sim.faults else [])]}, f)


def run_replay(spec, scratch, ext, timeout):
    """replay spec in a fresh process; returns (violation or None, detail)"""
    path = os.path.join(scratch, "replay_in.json")
    out = os.path.join(scratch, "replay_out.json")
    with open(path, "w") as f:
        json.dump(spec, f)
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.Popen([PY, "-c", "from sim import driver; driver.replay_main(%r, %r)"
                          % (path, out)], env=child_env(ext), cwd=scratch,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        err = p.communicate(timeout=timeout)[1]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return ["hang", "the run does not end"], {}
    if p.returncode < 0 or p.returncode >= 128:
        return ["crash", "the interpreter crashed (exit code %d)" % p.returncode], {}
    if not os.path.exists(out):
        return ["load", err.decode(errors="replace")[-3000:]], {"load": True}
    with open(out) as f:
        d = json.load(f)
    return d["violation"], d


# ---------------------------------------------------------------- the check
def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    rest = line.split(" ", 2)[2]
                    key, _, text = rest.partition(" :: ")
                    out.append((key.replace("match=", "", 1), text))
    except OSError:
        pass
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    base = os.environ.get("VERIF_SEED", "1")
    nshards = int(os.environ.get("SIM_SHARDS", "8"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="xboa_sim_")
    try:
        return check_main(prop, tier, base, nshards, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_main(prop, tier, base, nshards, scratch, t0):
    from . import native
    ext = None
    if not native.built():
        ext = os.path.join(scratch, "ext")
        os.mkdir(ext)
        errors = native.build(ext)
        if errors:
            sys.stderr.write("\n".join(errors)[-4000:])
            print("the C++ code of /repo does not compile")
            return 2
    spec = importlib.import_module("checks.plan").PLAN[prop]
    runs = int(os.environ.get("SIM_RUNS", spec[tier][0]))
    cap = float(os.environ.get("SIM_CAP", spec[tier][1]))
    procs = []
    for i in range(nshards):
        out = os.path.join(scratch, "shard%d.json" % i)
        cmd = [PY, "-c", "from sim import driver; driver.shard_main(%r,%r,%d,%d,%d,%r,%r)"
               % (prop, base, i, nshards, runs, cap, out)]
        log = open(out + ".log", "wb")
        p = subprocess.Popen(cmd, env=child_env(ext), cwd=scratch, stdout=log,
                             stderr=log, start_new_session=True)
        procs.append([p, out, log, time.time(), None])
    stall = float(os.environ.get("SIM_STALL", "90"))
    hung = set()
    while True:
        busy = False
        for i, e in enumerate(procs):
            p, out, log, last, seen = e
            if p.poll() is not None:
                continue
            busy = True
            try:
                with open(out + ".progress") as f:
                    now = f.read()
            except OSError:
                now = None
            if now != seen:
                e[3], e[4] = time.time(), now
            elif time.time() - e[3] > stall:
                hung.add(i)
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        if not busy:
            break
        time.sleep(0.1)
    results, violations, trouble = [], [], []
    for i, (p, out, log, _, seen) in enumerate(procs):
        log.close()
        if os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
            results.append(r)
            if r["error"]:
                trouble.append("shard %d run %d: %s" % (i, r["error"]["run"],
                                                        r["error"]["text"]))
            if r["violation"]:
                v = r["violation"]
                violations.append((v["run"], i, v))
        else:
            try:
                with open(out + ".progress") as f:
                    run = int(f.read().split()[0])
            except (OSError, ValueError, IndexError):
                with open(out + ".log", "rb") as f:
                    text = f.read().decode(errors="replace")
                trouble.append("shard %d did not start: %s" % (i, text[-3000:]))
                load_failed = text
                if "/repo/xboa" in text and p.returncode and p.returncode > 0:
                    violations.append((0, i, {"run": 0, "kind": "load",
                                              "message": text[-3000:], "seeded": True}))
                continue
            kind = "hang" if i in hung else "crash"
            violations.append((run, i, {"run": run, "kind": kind, "seeded": True,
                                        "message": "interpreter %s (exit code %s)" % (
                                            kind, p.returncode)}))
    violations.sort(key=lambda x: x[:2])
    reported = None
    known = known_findings(prop)
    known_hit = []
    for run, i, v in violations:
        found = confirm(prop, base, run, i, nshards, v, scratch, ext)
        if found is None:
            trouble.append("run %d (%s) could not be repeated: %s" % (
                run, v["kind"], v["message"]))
            continue
        text = "%s: %s" % (found["violation"][0], found["violation"][1])
        match = [k for k in known if k[0] in text]
        if match:
            known_hit.append(match[0])
            continue
        reported = found
        break
    for key, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    rc = 0
    if reported:
        path = write_replay(prop, reported)
        print("violation of %s in run %d of seed %s: %s: %s" % (
            prop, reported["run"], base, reported["violation"][0],
            reported["violation"][1]))
        for line in (reported.get("summary") or [])[:40]:
            print("    " + str(line))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif trouble:
        print("\n".join(trouble)[:6000])
        rc = 2
    write_evidence(prop, tier, base, results, t0, 1 if reported else 0, spec)
    total = sum(r["runs"] for r in results)
    print("%s %s: %d runs in %.1f s, exit %d" % (prop, tier, total,
                                                 time.time() - t0, rc))
    return rc


def confirm(prop, base, run, shard, nshards, v, scratch, ext):
    """replay in a fresh process; returns the replay record or None"""
    specs = []
    if v.get("minimised") is not None:
        specs.append({"choices": v["minimised"]})
        specs.append({"choices": v["choices"]})
    specs.append({"choices": None})
    specs.append({"choices": None, "prefix": list(range(shard, run, nshards))})
    for s in specs:
        s.update({"property": prop, "seed": base, "run": run})
        timeout = 100 + 0.5 * len(s.get("prefix", []))
        violation, detail = run_replay(s, scratch, ext, min(timeout, 400))
        if violation is not None and violation[0] == v["kind"]:
            s["violation"] = violation
            s["trace"] = detail.get("trace", [])[-400:]
            s["summary"] = detail.get("summary")
            s["faults"] = detail.get("faults")
            s["choices_used"] = detail.get("choices")
            return s
    return None


def write_replay(prop, found):
    d = os.path.join(os.environ.get("SIM_OUT", VERIF), "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s_seed%s_run%d.json" % (prop, found["seed"], found["run"])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(found, f, indent=1)
    return path


def write_evidence(prop, tier, base, results, t0, nviol, spec):
    mod_doc = spec
    sigs, nontrivial = set(), set()
    faults, probes, samples = {}, {}, []
    for r in results:
        sigs.update(r["sigs"])
        nontrivial.update(r["nontrivial"])
        samples += r["samples"]
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    runs = sum(r["runs"] for r in results)
    wall = time.time() - t0
    run_wall = max([r["wall"] for r in results] or [0.001]) or 0.001
    ev = {
        "property": prop, "tier": tier, "seed": int(base) if base.isdigit() else 0,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontrivial),
            "rule": spec["rule"] + " Each run is one seed; distinct = different "
                    "sequence of (task, operation) steps, by a 64 bit rolling hash.",
            "samples": samples[:4] or ["no run was completed"],
            "simulated_runs": runs,
            "runs_per_hour": int(runs / run_wall * 3600),
            "distinct_interleavings": len(sigs),
            "simulated_seconds": round(sum(r["sim_time"] for r in results), 3),
            "steps": sum(r["steps"] for r in results),
            "steps_of_longest_run": max([r.get("longest", 0) for r in results] or [0]),
            "task_switches": sum(r["switches"] for r in results),
            "runs_with_faults": sum(r["faulted_runs"] for r in results),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "real_components": spec["real"],
            "stubbed_components": spec["stubs"],
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    d = os.path.join(os.environ.get("SIM_OUT", VERIF), "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay_cli(path):
    from . import native
    with open(path) as f:
        spec = json.load(f)
    scratch = tempfile.mkdtemp(prefix="xboa_sim_")
    try:
        ext = None
        if not native.built():
            ext = os.path.join(scratch, "ext")
            os.mkdir(ext)
            errors = native.build(ext)
            if errors:
                print("the C++ code of /repo does not compile")
                return 2
        violation, detail = run_replay(spec, scratch, ext, 400)
        for line in detail.get("trace", []):
            print(line)
        for line in detail.get("summary") or []:
            print("    " + str(line))
        if detail.get("error"):
            print(detail["error"])
            return 2
        if violation is None:
            print("no violation")
            return 0
        print("%s: %s" % tuple(violation))
        same = spec.get("violation") and spec["violation"] == violation
        print("same as recorded" if same else "differs from the recorded one")
        print("VIOLATION property=%s replay=%s" % (spec["property"], path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

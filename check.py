#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property.

  check.py C01 [quick|thorough]     run the check, write evidence/C01.json
  check.py --replay FILE [--echo]   re-execute a recorded failing run
  check.py --setup                  nothing to install; compiles one binary
Everything is compiled from /repo's current working tree.
"""
import hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
CXX = "g++"
sys.path.insert(0, VERIF)
from checks import CHECKS   # noqa: E402

CXXFLAGS = ["-std=c++14", "-O1", "-g1", "-pthread", "-fsanitize=address", "-fno-omit-frame-pointer",
            "-ftrivial-auto-var-init=pattern", "-w"]


def tree_hash(paths, extra):
    h = hashlib.sha256()
    h.update(repr(extra).encode())
    for root in paths:
        files = []
        if os.path.isfile(root):
            files = [root]
        else:
            for d, dirs, fs in os.walk(root):
                dirs.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def compile_one(src, extra_flags, out, deps):
    if os.path.exists(out):
        return None
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    cmd = [CXX] + CXXFLAGS + list(extra_flags) + ["-c", src, "-o", tmp]
    return (subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), tmp, out, cmd)


def build(name):
    """compile scen/<name>.cpp and sim/sim.cpp, link; returns the binary"""
    spec = CHECKS[name]
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + VERIF, "-I" + os.path.join(VERIF, "stubs")] + spec.get("flags", [])
    stub = os.path.join(VERIF, "stubs")
    srcs = [os.path.join(VERIF, "sim", "sim.cpp")] + [os.path.join(VERIF, "sim", s) for s in spec.get("sim", [])]
    scen = [os.path.join(VERIF, "scen", s) for s in spec.get("sources", [name.lower() + ".cpp"])]
    deps_sim = [os.path.join(VERIF, "sim")]
    deps_scen = [os.path.join(REPO, "src"), os.path.join(VERIF, "sim"), os.path.join(VERIF, "scen")]
    if os.path.isdir(stub):
        deps_scen.append(stub)
    objs, procs = [], []
    for s in srcs:
        o = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(s), tree_hash(deps_sim, [CXXFLAGS, s])))
        objs.append(o)
        p = compile_one(s, ["-I" + VERIF], o, None)
        if p:
            procs.append(p)
    for s in scen:
        o = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(s), tree_hash(deps_scen, [CXXFLAGS, inc, s])))
        objs.append(o)
        p = compile_one(s, inc, o, None)
        if p:
            procs.append(p)
    for pr, tmp, out, cmd in procs:
        text, _ = pr.communicate()
        if pr.returncode:
            sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), text[-6000:]))
            sys.exit(2)
        os.rename(tmp, out)
    exe = os.path.join(BUILD, "%s-%s" % (name, hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20]))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + CXXFLAGS + objs + ["-o", tmp] + spec.get("libs", []), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write("LINK FAILED\n" + r.stdout[-6000:])
            sys.exit(2)
        os.rename(tmp, exe)
    return exe


def known_findings():
    """lines 'known: property=<id> scenario=<s> class=<c> replay=<file> <text>' and 'fixed: ...'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) class=(\S+) replay=(\S+) (.*)", line.strip())
            if m:
                out.append(dict(zip(["property", "scenario", "class", "replay", "text"], m.groups())))
    return out


def run_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("ASAN") and k not in ("LD_PRELOAD", "MALLOC_ARENA_MAX")}
    e["LC_ALL"] = "C"
    return e


def replay(path, echo):
    scen = None
    for line in open(path):
        if line.startswith("scenario "):
            scen = line.split()[1]
    prop = next(k for k, v in CHECKS.items() if any(s[0] == scen for s in v["scenarios"]))
    exe = build(prop)
    cmd = [exe, "replay", "--file", path] + (["--echo", "1"] if echo else [])
    return subprocess.run(cmd, env=run_env()).returncode


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2], "--echo" in sys.argv))
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        sys.exit(0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    t0 = time.time()
    exe = build(prop)
    build_s = time.time() - t0
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    jobs = min(8, os.cpu_count() or 1)
    env = run_env()
    results, violation, error = [], None, None
    for scen in spec["scenarios"]:
        name, nq, nt = scen[0], scen[1], scen[2]
        runs = nq if tier == "quick" else nt
        rp = os.path.join(REPLAYS, "%s-%s-seed%d.replay" % (prop, name, seed))
        out = os.path.join(BUILD, "out-%s-%d.json" % (name, os.getpid()))
        cmd = [exe, "run", "--scenario", name, "--seed", str(seed), "--runs", str(runs), "--jobs", str(jobs),
               "--replay-out", rp, "--out", out, "--gate", str(spec.get("gate", 24))]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            error = "scenario %s gave no result (exit %d): %s" % (name, r.returncode, r.stdout[-2000:])
            break
        res = json.load(open(out))
        os.unlink(out)
        results.append(res)
        if res["violation"]:
            # the minimised replay file must reproduce exactly in a fresh process
            rr = subprocess.run([exe, "replay", "--file", rp], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if rr.returncode != 1:
                error = "scenario %s: violation %s did not replay in a fresh process (exit %d): %s" % (
                    name, res["violation"]["class"], rr.returncode, rr.stdout[-1500:])
                continue
            violation = (name, res["violation"], rp)
            break
        if res["nondeterministic"]:
            error = "scenario %s is not deterministic: %s" % (name, res["nondet_message"])
        elif r.returncode != 0:
            error = "scenario %s failed with exit %d: %s" % (name, r.returncode, r.stdout[-2000:])
    # known findings: each one is a committed replay; report it while it fails
    for kf in known_findings():
        if kf["property"] != prop:
            continue
        rr = subprocess.run([exe, "replay", "--file", os.path.join(VERIF, kf["replay"])], env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True)
        m = re.search(r"RESULT class=(\S+)", rr.stdout)
        if m and m.group(1) == kf["class"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf["text"]))
    write_evidence(prop, tier, seed, spec, results, violation, time.time() - t0, build_s, jobs)
    if violation:
        name, v, rp = violation
        print("scenario %s, run %d, class %s (minimised from %d to %d choices)" % (
            name, v["run"], v["class"], v["original_draws"], v["minimised_draws"]))
        print(v["message"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if error:
        sys.stderr.write("CHECK ERROR %s: %s\n" % (prop, error))
        sys.exit(2)
    tot = sum(r["runs"] for r in results)
    print("%s held on %d simulated runs (%d oracle evaluations), %.1f s" % (
        prop, tot, sum(r["checks"] for r in results), time.time() - t0))
    sys.exit(0)


def write_evidence(prop, tier, seed, spec, results, violation, wall, build_s, jobs):
    runs = sum(r["runs"] for r in results)
    run_wall = sum(r["run_wall_s"] for r in results) or 1e-9
    faults, probes = {}, {}
    for r in results:
        for k, v in r["faults"].items():
            f = faults.setdefault(k, {"injected": 0, "runs": 0})
            f["injected"] += v["injected"]
            f["runs"] += v["runs"]
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    samples = ["[%s seed %d run 0] %s" % (r["scenario"], seed, r["sample"][:600]) for r in results][:8] or ["none"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": spec["rule"],
            "samples": samples,
            "oracle_evaluations": sum(r["checks"] for r in results),
            "simulated_runs_per_hour": int(runs / run_wall * 3600),
            "seeds": "VERIF_SEED %d x run index; one PRNG seed per simulated run" % seed,
            "simulated_steps": sum(r["steps"] for r in results),
            "simulated_time_s": round(sum(r["sim_seconds"] for r in results), 3),
            "choices_drawn": sum(r["draws"] for r in results),
            "faults_injected": faults,
            "probes_reached": probes,
            "distinct_histories": sum(r["distinct_histories"] for r in results),
            "distinct_states": sum(r["distinct_states"] for r in results),
            "distinctness_measure": "distinct FNV-64 hashes of the complete event log of a run (histories); " + spec.get("state_measure", "scenario-defined abstract states visited"),
            "determinism_gate_runs_repeated": sum(r["gate_runs"] for r in results),
            "workers": jobs,
            "components_real": spec["real"],
            "components_stubbed": spec["stub"],
            "per_scenario": [{k: r[k] for k in ("scenario", "runs", "checks", "steps", "draws", "distinct_histories",
                                                "distinct_states", "nontrivial", "wall_s", "sim_seconds")} for r in results],
            "build_s": round(build_s, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "violations": 0,
        "wall_s": round(wall, 2),
    }
    if violation:
        name, v, rp = violation
        ev["violations"] = 1
        ev["coverage"]["violation"] = [{"scenario": name, "class": v["class"], "message": v["message"][:800], "replay": rp,
                             "minimised_draws": v["minimised_draws"], "original_draws": v["original_draws"]}]
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()

"""
  main.py check C01 [--runs N] [--shards N] [--entries N]     seeded search, evidence, replay file
  main.py replay FILE                                           re-executes one recorded violation
"""
import argparse
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import host  # noqa: E402

PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
WORKERS = int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4))


def run_job(job, quiet=False):
    jp = os.path.join(job["scratch"], "job.json")
    with open(jp, "w") as f:
        json.dump(job, f)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONWARNINGS="ignore")
    env.pop("PYTHONPATH", None)
    return subprocess.run([PY, "-B", os.path.join(HERE, "trainer.py"), jp], env=env, stdin=subprocess.DEVNULL, timeout=job["wall"] + 900,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def load_out(scratch, n):
    p = os.path.join(scratch, "s%d" % n, "out.pkl")
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return pickle.load(f)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def shard_specs(prop, seed, shards, entries):
    import zookinds
    out = []
    for s in range(shards):
        out.append({"shard": s, "specs": zookinds.pick_specs("%s:%s:%s" % (seed, prop.id, s), entries, prop.kinds, prop.boost, s)})
    return out


def check(pid, tier, seed, a):
    t0 = time.time()
    prop = host.find_prop(pid)
    ti = 0 if tier == "quick" else 1
    nshards = a.shards or prop.shards[ti]
    nent = a.entries or prop.entries[ti]
    runs = a.runs or prop.runs[ti]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        job = {"prop": pid, "mode": "shard", "seed": seed, "runs": runs, "wall": a.wall or (150 if tier == "quick" else 3000), "scratch": scratch,
               "workers": WORKERS, "shards": shard_specs(prop, seed, nshards, nent)}
        if a.only is not None:
            job["shards"] = [job["shards"][int(a.only.split(":")[0])]]
            job["only"] = int(a.only.split(":")[1])
        p = run_job(job)
        outs = [load_out(scratch, s["shard"]) for s in job["shards"]]
        missing = [s["shard"] for s, o in zip(job["shards"], outs) if o is None]
        outs = [o for o in outs if o]
        errors = [e for o in outs for e in o["errors"]]
        if missing:
            errors.append("no result from shards %s: %s" % (missing, p.stdout.decode("utf8", "replace")[-3000:]))
        viols = [dict(v, shard=o["shard"]) for o in outs for v in o["violations"]]
        confirmed, seen, rejected = [], set(), 0
        for v in viols:
            if v["viol"].get("sig") in seen or len(confirmed) >= 3:
                continue
            path = confirm(pid, seed, tier, v)
            if path:
                seen.add(v["viol"].get("sig"))
                confirmed.append((path, v))
            else:
                rejected += 1
        wall = time.time() - t0
        evidence(prop, tier, seed, outs, confirmed, wall, len(job["shards"]), nent, errors)
        known = [k for k in known_findings(pid) if k.get("status") == "known"]
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        runs_done = sum(o["runs"] for o in outs)
        print("%s %s seed=%s: %d runs, %d calls, %d services, %.1f s, faults %s" % (
            pid, tier, seed, runs_done, sum(o["calls"] for o in outs), nshards * nent, wall, json.dumps(fault_sum(outs), sort_keys=True)))
        if a.verbose:
            print(p.stdout.decode("utf8", "replace")[-3000:])
            for o in outs:
                print({k: o[k] for k in ("shard", "runs", "skipped", "wall", "goldens", "nontrivial", "build_s")})
        for e in errors[:5]:
            print("ERROR %s" % e)
        for path, v in confirmed:
            print("  %s" % v["viol"]["what"][:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        if confirmed:
            return 1
        if rejected:
            print("ERROR: %d reported violations did not reproduce from their replay file" % rejected)
            for v in viols[:3]:
                print("  " + v["viol"]["what"][:800])
            return 2
        if errors or not runs_done:
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def determinism(pids, seed, a):
    """the same seeds twice, with another number of workers and another hash seed: every run has to have the same digest"""
    rc = 0
    for pid in pids:
        prop = host.find_prop(pid)
        got = []
        for workers, hs in ((2, "0"), (5, "4711")):
            scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
            try:
                os.environ["PYTHONHASHSEED"] = hs
                job = {"prop": pid, "mode": "shard", "seed": seed, "runs": a.runs or 25, "wall": 600, "scratch": scratch, "workers": workers,
                       "shards": shard_specs(prop, seed, a.shards or 5, a.entries or 12)}
                run_job(job)
                outs = [load_out(scratch, s["shard"]) for s in job["shards"]]
                got.append([(o["digests"], o["faults"], o["calls"], o["simtime"]) if o else None for o in outs])
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        same = got[0] == got[1] and None not in got[0]
        n = sum(len(x[0]) for x in got[0] if x)
        diff = sum(x != y for o, p in zip(*got) if o and p for x, y in zip(o[0], p[0]))
        print("%s: %d runs, %s" % (pid, n, "identical" if same else "DIFFERENT (%d digests)" % diff))
        rc |= not same
    return rc


def fault_sum(outs):
    f = {}
    for o in outs:
        for k, n in o["faults"].items():
            f[k] = f.get(k, 0) + n
    return f


def confirm(pid, seed, tier, v):
    """write the replay file and execute it in fresh processes; None if it does not reproduce"""
    d = os.environ.get("VERIF_REPLAYS") or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    for which in ("plan", "original"):
        rep = {"property": pid, "seed": seed, "shard": v["shard"], "run": v["run"], "tier": tier, "specs": v["specs"],
               "plan": host.rebase(v[which], v["specs"]), "violation": v["viol" if which == "plan" else "original_viol"],
               "minimised": which == "plan", "shrink_steps": v["shrink_steps"], "schedule": v.get("trace"), "faults": v.get("fired")}
        path = os.path.join(d, "%s-%s-%s-%s.json" % (pid, seed, v["shard"], v["run"]))
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        res = run_replay(rep)
        if res and res["viol"] and res["viol"].get("sig") == rep["violation"].get("sig"):
            return path
        os.unlink(path)
    return None


def run_replay(rep):
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        job = {"prop": rep["property"], "mode": "replay", "replay": rep, "seed": rep["seed"], "runs": 1, "wall": 100, "scratch": scratch, "workers": 1,
               "shards": [{"shard": 0, "specs": rep["specs"]}]}
        p = run_job(job)
        out = load_out(scratch, 0)
        if out is None:
            print("ERROR replay gave no result: %s" % p.stdout.decode("utf8", "replace")[-2000:])
        return out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def evidence(prop, tier, seed, outs, confirmed, wall, nshards, nent, errors):
    runs = sum(o["runs"] for o in outs)
    digs = set(d for o in outs for d in o["digests"])
    search = sum(o["wall"] for o in outs)
    samples = [dict(s, shard=o["shard"]) for o in outs for s in o["samples"]][:4]
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": len(digs) if runs and all(o["nontrivial"] == o["runs"] for o in outs) else min(len(digs), sum(o["nontrivial"] for o in outs)),
              "rule": prop.rule, "samples": samples, "calls_into_code_under_test": sum(o["calls"] for o in outs),
              "reference_executions": sum(o["goldens"] for o in outs),
              "services_trained": nshards * nent, "distinct_executions": len(digs),
              "distinct_measure": "hash of requests, realised switch trace (thread, event, place) and delivered faults",
              "faults_injected": fault_sum(outs), "simulated_seconds": round(sum(o["simtime"] for o in outs), 1),
              "runs_per_hour": int(runs / max(wall, 0.001) * 3600), "seeds_per_hour": int(runs / max(wall, 0.001) * 3600),
              "search_cpu_seconds": round(search, 1), "components": prop.components, "skipped_plans": sum(o["skipped"] for o in outs),
              "harness_errors": len(errors)},
          "assumptions": ["CPython 3.12: threads interleave between bytecodes of package code; C code (numpy, re, pickle) is atomic",
                          "seeded search: not exhaustive"],
          "wall_s": round(wall, 1), "violations": len(confirmed)}
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "%s.json" % prop.id), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("what", nargs="?")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--shards", type=int)
    ap.add_argument("--entries", type=int)
    ap.add_argument("--wall", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier")
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if a.cmd == "check":
        sys.exit(check(a.what, tier, seed, a))
    if a.cmd == "determinism":
        sys.exit(determinism(a.what.split(",") if a.what else ["C%02d" % i for i in range(1, 16)], seed, a))
    if a.cmd == "setup":
        # nothing to build: both sides run from source.  Check that the interpreter and its packages are there.
        sys.exit(subprocess.run([PY, "-B", "-c", "import sys, numpy, sklearn, xgboost, fasttext, pandas; sys.monitoring"],
                                stdin=subprocess.DEVNULL).returncode)
    if a.cmd == "replay":
        rep = json.load(open(a.what))
        res = run_replay(rep)
        if res is None:
            sys.exit(2)
        if res["viol"]:
            print("  " + res["viol"]["what"])
            same = res["viol"].get("what") == rep["violation"].get("what")
            print("reproduced %s" % ("exactly" if same else "(details differ)"))
            print("VIOLATION property=%s replay=%s" % (rep["property"], a.what))
            sys.exit(1)
        print("replay of %s: no violation" % a.what)
        sys.exit(0)
    sys.exit("unknown command")


if __name__ == "__main__":
    main()

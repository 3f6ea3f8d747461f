"""
Trainer-side process (full environment: scikit-learn, xgboost, fasttext).  Forks one kid per CPU;
each kid trains and converts the services of a shard, then either starts a bare server-side worker
on them or, for properties about the training process itself, runs the search in place.
argv: job.json
"""
import json
import os
import pickle
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.stdout.flush()

import core
import host
import runner
import sched

job = json.load(open(sys.argv[1]))
prop = host.find_prop(job["prop"])

import numpy  # noqa: F401,E402
import sklearn.ensemble, sklearn.linear_model, sklearn.pipeline, sklearn.naive_bayes, sklearn.svm, sklearn.tree  # noqa: F401,E401,E402
import sklearn.feature_extraction.text, sklearn.preprocessing, sklearn.impute, sklearn.dummy, sklearn.metrics.pairwise  # noqa: F401,E401,E402
import pandas, xgboost, fasttext  # noqa: F401,E401,E402

if prop.env == "trainer":
    sched.install()
if getattr(prop, "lazy_import", False):
    core.install_loader()
    sys.path.insert(0, core.REPO)
    core.precompile()
else:
    core.import_packages()
import zoo  # noqa: E402

zoo.POOL = getattr(prop, "pool", None) or zoo.POOL
zoo.EXTREME = not prop.native


def make_entries(specs):
    out = []
    for s in specs:
        try:
            out.append(zoo.entry(s, native=prop.native, probes=prop.probes))
        except Exception:
            out.append({"spec": s, "error": traceback.format_exc()[-1200:], "versions": [], "family": "none", "methods": [], "desc": str(s), "pool": []})
    return out


def one_shard(sh):
    base = os.path.join(job["scratch"], "s%d" % sh["shard"])
    os.makedirs(base)
    t = time.monotonic()
    if prop.env == "trainer" and not prop.wants_entries:
        entries = [{"spec": s, "versions": [{}], "family": "spec", "desc": s["kind"], "methods": [], "pool": []} for s in sh["specs"]]
    else:
        entries = make_entries(sh["specs"])
    built = time.monotonic() - t
    out = os.path.join(base, "out.pkl")
    if prop.env == "trainer":
        if job["mode"] == "shard":
            res = host.run_shard(job["prop"], entries, job["seed"], sh["shard"], job["runs"], job["wall"], base, job.get("only"))
        else:
            res = host.replay(job["replay"], entries, base)
        with open(out, "wb") as f:
            pickle.dump(res, f)
    else:
        ep = os.path.join(base, "entries.pkl")
        with open(ep, "wb") as f:
            pickle.dump(entries, f)
        wj = dict(job, entries=ep, out=out, shard=sh["shard"], scratch=base)
        wj.pop("shards")
        jp = os.path.join(base, "job.json")
        with open(jp, "w") as f:
            json.dump(wj, f)
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "VERIF_REPO", "VERIF_DEBUG", "TMPDIR", "LANG", "HOME")}
        env["PYTHONHASHSEED"] = "0"
        subprocess.run([sys.executable, "-B", "-S", "-P", os.path.join(os.path.dirname(os.path.abspath(__file__)), "worker.py"), jp], env=env,
                       stdin=subprocess.DEVNULL, timeout=job["wall"] + 400)
    if os.path.exists(out):
        with open(out, "rb") as f:
            res = pickle.load(f)
        res["build_s"] = built
        with open(out, "wb") as f:
            pickle.dump(res, f)


def main():
    shards = list(job["shards"])
    pids = []
    for w in range(min(job["workers"], len(shards))):
        pid = os.fork()
        if pid == 0:
            try:
                for sh in shards[w::job["workers"]]:
                    one_shard(sh)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(1)
            os._exit(0)
        pids.append(pid)
    bad = 0
    for p in pids:
        bad |= os.waitpid(p, 0)[1]
    os._exit(1 if bad else 0)


if __name__ == "__main__":
    main()

"""
Server-side worker: a bare interpreter (-I -S) that has the standard library and the packages
under test, nothing else.   argv: job.json   (reads shard.pkl, writes out.pkl)
"""
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import json
import pickle

import core
import runner  # noqa: F401
import host
import sched

if __name__ == "__main__":
    job = json.load(open(sys.argv[1]))
    prop = host.find_prop(job["prop"])  # import every harness module before time and locks become simulated
    sched.install()
    if prop.env == "bare":
        core.import_packages()
        with open(job["entries"], "rb") as f:
            entries = pickle.load(f)
    else:
        with open(job["entries"], "rb") as f:
            entries = pickle.load(f)
    if job["mode"] == "shard":
        out = host.run_shard(job["prop"], entries, job["seed"], job["shard"], job["runs"], job["wall"], job["scratch"], job.get("only"))
    else:
        out = host.replay(job["replay"], entries, job["scratch"])
    with open(job["out"] + ".tmp", "wb") as f:
        pickle.dump(out, f)
    os.rename(job["out"] + ".tmp", job["out"])

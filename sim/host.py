"""
Runs the seeded search of one property over one shard of services (standard library only; the
bare worker and the trainer-side worker share it).
"""
import gc
import json
import os
import random
import sys
import traceback

import core
from sched import real_monotonic
from runner import Ctx, execute, minimise, HarnessTimeout, dumps


def find_prop(pid):
    import props
    if pid in props.PROPS:
        return props.PROPS[pid]()
    import props_store
    if pid in props_store.PROPS:
        return props_store.PROPS[pid]()
    import props_train
    if pid in props_train.PROPS:
        return props_train.PROPS[pid]()
    import props_hold
    return props_hold.PROPS[pid]()


def guarded(prop, plan, ctx):
    """execute; a run that twice makes no progress in real time is itself a violation"""
    for attempt in (1, 2):
        try:
            return execute(prop, plan, ctx, 40.0)
        except HarnessTimeout:
            if attempt == 2:
                return {"viol": {"what": "a call never returned (no result within 40 s, twice)", "sig": "hang"}, "faults": {}, "calls": 0,
                        "simtime": 0.0, "digest": "hang", "nontrivial": True}


def run_shard(pid, entries, seed, shard, nruns, wall, scratch=None, only=None):
    prop = find_prop(pid)
    ctx = Ctx(entries, prop)
    ctx.scratch = scratch
    ctx.shard = shard
    start = real_monotonic()
    st = {"shard": shard, "runs": 0, "skipped": 0, "faults": {}, "calls": 0, "simtime": 0.0, "digests": [], "nontrivial": 0, "violations": [],
          "errors": [], "samples": [], "timeouts": 0, "styles": {}}
    for name, msg in entry_errors(prop, entries):
        st["errors"].append("%s: %s" % (name, msg))
    prop.open(ctx) if hasattr(prop, "open") else None
    gc.collect()
    gc.freeze()
    try:
        seen_sig = set()
        for i in range(nruns):
            if only is not None and i != only:
                continue
            if real_monotonic() - start > wall:
                break
            rng = random.Random("%s:%s:%s:%s" % (seed, pid, shard, i))
            try:
                plan = prop.gen(rng, ctx)
                if plan is None:
                    st["skipped"] += 1
                    continue
                plan = json.loads(json.dumps(plan))
                res = guarded(prop, plan, ctx)
            except Exception:
                st["errors"].append("run %d: %s" % (i, traceback.format_exc()[-1500:]))
                if len(st["errors"]) > 5:
                    break
                continue
            st["runs"] += 1
            st["calls"] += res["calls"]
            st["simtime"] += res["simtime"]
            st["digests"].append(res["digest"])
            st["nontrivial"] += bool(res["nontrivial"])
            for k, n in res["faults"].items():
                if n:
                    st["faults"][k] = st["faults"].get(k, 0) + n
            if len(st["samples"]) < 1 and res["nontrivial"] and not res["viol"]:
                st["samples"].append({"run": i, "services": [entries[e]["desc"][:160] for e in plan["E"]], "plan": trim(plan)})
            if res["viol"]:
                plan = res.pop("plan", plan)
                sig = res["viol"].get("sig")
                if sig in seen_sig:
                    continue
                seen_sig.add(sig)
                if sig == "hang":
                    small, sres, n = plan, res, 0
                else:
                    small, sres, n = minimise(prop, plan, ctx, sig)
                st["violations"].append({"run": i, "plan": small, "viol": (sres or res)["viol"], "original": plan, "original_viol": res["viol"],
                                         "shrink_steps": n, "specs": [entries[e]["spec"] for e in plan["E"]],
                                         "trace": (sres or res).get("trace"), "fired": (sres or res).get("fired")})
                if len(st["violations"]) >= 2 or sig == "hang":
                    break
    finally:
        if hasattr(prop, "close"):
            prop.close(ctx)
    st["wall"] = real_monotonic() - start
    st["goldens"] = len(ctx.cache)
    return st


def entry_errors(prop, entries):
    return [(str(e["spec"]), e["error"]) for e in entries
            if e.get("error") and e["spec"]["kind"] not in ("odd", "ftodd")]  # unusual configurations may be refused by the native side


def trim(plan, limit=1500):
    s = dumps(plan)
    return plan if len(s) <= limit else s[:limit] + "..."


def replay(rep, entries, scratch=None):
    """execute the plan of a replay file whose entries were rebuilt; returns the result"""
    prop = find_prop(rep["property"])
    ctx = Ctx(entries, prop)
    ctx.scratch = scratch
    ctx.shard = rep.get("shard", 0)
    prop.open(ctx) if hasattr(prop, "open") else None
    gc.collect()
    gc.freeze()
    try:
        return guarded(prop, rep["plan"], ctx)
    finally:
        if hasattr(prop, "close"):
            prop.close(ctx)


def rebase(plan, specs):
    """plan over shard entries -> plan over the list of distinct specs it uses"""
    return dict(plan, E=list(range(len(plan["E"]))))

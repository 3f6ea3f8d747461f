"""
Executes plans: every run and every undisturbed reference call happens in its own forked child,
so a run sees no state but what its plan creates.
"""
import json
import os
import pickle
import select
import signal
import sys

import core
from sched import real_monotonic


class HarnessTimeout(Exception):
    pass


def in_child(fn, timeout=30.0):
    """fn() in a forked child; returns its (picklable) result or raises"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            dn = os.open(os.devnull, os.O_RDWR)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            try:
                res = ("ok", fn())
            except BaseException as ex:
                import traceback
                res = ("err", "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-3000:]))
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks, end, used = [], real_monotonic() + timeout, -1.0
    try:
        while True:
            left = end - real_monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                # on a busy machine a child that is computing gets its share of processor time first
                before, used = used, _cpu(pid)
                if used < timeout and used > before + 0.2:
                    end = real_monotonic() + max(5.0, timeout / 4)
                    continue
                os.kill(pid, signal.SIGKILL)
                raise HarnessTimeout("no result within %.0f s" % timeout)
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    data = b"".join(chunks)
    if not data:
        raise RuntimeError("child died without a result")
    kind, val = pickle.loads(data)
    if kind == "err":
        raise RuntimeError(val)
    return val


def _cpu(pid):
    """processor time used by a child, in seconds"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            a = f.read().rsplit(")", 1)[1].split()
        return (int(a[11]) + int(a[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 1e9


class Ctx:
    """entries of one shard plus cached undisturbed answers"""

    def __init__(self, entries, prop=None, tier="quick"):
        self.entries = entries
        self.prop = prop
        self.tier = tier
        self.cache = {}
        self.scratch = None

    def usable(self, family=None):
        return [i for i, e in enumerate(self.entries)
                if not e.get("error") and any("error" not in v for v in e["versions"]) and (family is None or e["family"] in family)]

    def version(self, ei, rng=None):
        ok = [i for i, v in enumerate(self.entries[ei]["versions"]) if "error" not in v]
        return rng.choice(ok) if rng else ok[0]

    def cost(self, ei):
        """events of one small call"""
        e = self.entries[ei]
        m = next((m for m in e["methods"] if m == "predict"), e["methods"][0])
        req = {"m": m, "form": "one" if e["family"] == "ft" else "list", "idx": [3]}
        if e["family"] == "ft" and m == "predict":
            req.update(k=1, thr=0.0)
        return self.golden(ei, self.version(ei), req)["ops"]

    def pick(self, rng, us, n=1):
        """a random service; expensive ones less often"""
        for _ in range(3):
            ei = rng.choice(us)
            if self.cost(ei) < 4000 or rng.random() < 0.2:
                break
        return ei

    def payload(self, ei, req):
        return core.payload_of(core.source(self.entries, ei, req), req)

    def golden(self, ei, v, req, light=False):
        """the answer of this call alone on a fresh copy of the model in a fresh process"""
        key = (ei, v, core.req_key(req))
        g = self.cache.get(key)
        if g is None or not (light or "ops" in g):
            g = self.cache[key] = in_child(lambda: self._golden(ei, v, req, light))
        return g

    def _golden(self, ei, v, req, light=False):
        from sched import Counter
        entry = self.entries[ei]
        model = core.load_model(entry, v)
        payload = self.payload(ei, req)
        c = Counter() if not light else None  # counting events slows a call down
        val = []

        def go():
            val.append(core.invoke(model, req, payload))
            return val[0]
        if light:
            out = core.outcome(go)
            return {"out": out, "value": core.plain(val[0]) if val else None}
        out = core.outcome(lambda: c(go))
        return {"out": out, "value": core.plain(val[0]) if val else None, "lines": c.lines, "ops": c.ops, "hl": c.hot_lines, "ho": c.hot_ops}


def result(viol=None, faults=None, calls=0, simtime=0.0, digest="", nontrivial=True, **kw):
    r = {"viol": viol, "faults": faults or {}, "calls": calls, "simtime": simtime, "digest": digest, "nontrivial": nontrivial}
    r.update(kw)
    return r


def violation(what, **kw):
    kw["what"] = what
    return kw


def execute(prop, plan, ctx, timeout=30.0):
    prop.prepare(plan, ctx)  # reference answers, outside the run
    if getattr(prop, "own_child", False):
        return prop.execute(plan, ctx)
    return in_child(lambda: prop.execute(plan, ctx), timeout)


def minimise(prop, plan, ctx, sig, budget_s=25.0, max_exec=400):
    """greedy shrinking: keep any smaller plan that still violates with the same signature"""
    end = real_monotonic() + budget_s
    n = 0
    best, bestres = plan, None
    progress = True
    while progress and real_monotonic() < end and n < max_exec:
        progress = False
        for cand in prop.shrink(best):
            if real_monotonic() > end or n >= max_exec:
                break
            n += 1
            try:
                res = execute(prop, cand, ctx)
            except Exception:
                continue
            if res["viol"] and res["viol"].get("sig") == sig:
                best, bestres, progress = cand, res, True
                break
    return best, bestres, n


def drop_each(lst):
    """candidate sublists: halves first, then single removals"""
    n = len(lst)
    step = n // 2
    while step >= 1:
        for i in range(0, n, step):
            c = lst[:i] + lst[i + step:]
            if len(c) < n:
                yield c
        step //= 2


def dumps(x):
    return json.dumps(x, sort_keys=True)

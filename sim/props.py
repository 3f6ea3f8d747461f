"""
Simulations of the serving side (properties C01-C05, C09, C12): plans, execution, invariants.

A plan is JSON data.  "E" lists the entries (services) it uses; everything else refers to
positions in E.  "M" lists loaded model copies as [position in E, version].
"""
import gc
import json
import random

import core
from core import canon, ocanon, approx, short
from runner import result, violation, drop_each
from sched import Sched, SimStop, Clock, gen_switches, _write_sites

MAX_OPS = 30000     # bytecode-granular runs up to this many events
MAX_LINES = 60000


def dump(x):
    return json.loads(json.dumps(x))


class Prop:
    id = None
    env = "bare"
    families = ("num", "docs", "cat", "dicts", "ft", "func")
    kinds = None
    runs = (220, 4000)      # per shard: quick, thorough
    entries = (30, 60)
    shards = (16, 64)
    native = False
    probes = 0
    boost = None
    wants_entries = True
    rule = ""
    components = {"real": ["pure_sklearn and pure_fasttext from /repo's working tree (every module imported; real pickles of models converted by the real converters)",
                           "CPython 3.12 interpreter and standard library"],
                  "simulated": ["thread scheduler", "clocks", "random seeds", "callers"]}

    def gen(self, rng, ctx):
        raise NotImplementedError

    def calls(self, plan):
        """[(position, version, request)] whose undisturbed outcome the run needs"""
        raise NotImplementedError

    def prepare(self, plan, ctx):
        for p, v, req in self.calls(plan):
            ctx.golden(plan["E"][p], v, req)

    def gold(self, plan, ctx, m, req):
        p, v = plan["M"][m]
        return ctx.golden(plan["E"][p], v, req, light=True)  # from prepare()

    def entry(self, plan, ctx, m):
        return ctx.entries[plan["E"][plan["M"][m][0]]]

    def load(self, plan, ctx):
        return [core.load_model(ctx.entries[plan["E"][p]], v) for p, v in plan["M"]]

    def payload(self, plan, ctx, m, req):
        return ctx.payload(plan, m, req)

    def describe(self, plan, ctx, m, req):
        e = self.entry(plan, ctx, m)
        return "%s [%s seed %s v%s] %s" % (e["desc"][:200], e["spec"]["kind"], e["spec"]["seed"], plan["M"][m][1], core.req_key(req))


def payload(plan, ctx, m, req):
    """fresh request object; req["src"] is a position in E whose pool is used instead of the model's own"""
    p = req.get("src", plan["M"][m][0])
    return core.payload_of(ctx.entries[plan["E"][p]], req)


def gkey(plan, m, req):
    """request with src translated to shard-wide entry number (how goldens are cached)"""
    if "src" in req:
        req = dict(req, src=plan["E"][req["src"]])
    return req


def sound(g, ops):
    n = g["ops"] if ops else g["lines"]
    return n


def mismatch(got, exp):
    return "got %s, alone it gives %s" % (short(got, 400), short(exp, 400))


def setup_run(plan):
    rs = plan.get("rs", 0)
    random.seed(rs)
    Clock.start(wall=1.7e9 + rs % 1000003, mono=1000.0 + rs % 777)
    core.sim_id.reset()
    core.sim_id.on = True


def one_thread(fn, cap=3000000, **kw):
    """run fn as the only simulated thread (so that a lock left behind is a reported deadlock, not a hang)"""
    s = Sched([fn], cap=cap, **kw)
    v = s.run()
    return s, v[0]


# ---------------------------------------------------------------- C01
class C01(Prop):
    id = "C01"
    rule = ("a run = 2-4 caller threads with 1-3 calls each on 1-3 loaded models (mostly one shared), well-formed and malformed requests, some callers "
            "aborted; thread switches at line or bytecode granularity inside package code, biased to points right after writes. Non-trivial: at least "
            "one switch happened while both the leaving and another thread were inside calls.")

    def gen(self, rng, ctx):
        us = ctx.usable(self.families)
        E = [ctx.pick(rng, us)]
        if rng.random() < 0.15:
            # a second service, preferably of the same kind (state shared between classes)
            same = [i for i in us if ctx.entries[i]["spec"]["kind"] == ctx.entries[E[0]]["spec"]["kind"] and i != E[0]]
            E.append(rng.choice(same or us))
        M = [[0, ctx.version(E[0], rng)]]
        if len(E) > 1:
            M.append([1, ctx.version(E[1], rng)])
        elif rng.random() < 0.1:
            M.append([0, ctx.version(E[0], rng)])
        nt = rng.choice([2, 2, 2, 3, 3, 4])
        same_method = rng.random() < 0.6
        entry = ctx.entries[E[0]]
        meth = [rng.choice(entry["methods"])] if same_method else None
        opcodes = rng.random() < 0.55
        th, counts, hots = [], [], []
        for t in range(nt):
            calls, c, h = [], 0, []
            for _ in range(rng.choice([1, 1, 2, 3])):
                m = rng.randrange(len(M)) if len(M) > 1 else 0
                e = ctx.entries[E[M[m][0]]]
                req = core.gen_request(rng, e, methods=meth if m == 0 else None, maxn=3, bad=0.07)
                g = ctx.golden(E[M[m][0]], M[m][1], req)
                n = g["ops"] if opcodes else g["lines"]
                if n > (MAX_OPS if opcodes else MAX_LINES):
                    continue
                h += [c + x for x in (g["ho"] if opcodes else g["hl"])]
                c += n
                calls.append([m, req])
            if calls:
                th.append(calls)
                counts.append(c)
                hots.append(h)
        if len(th) < 2:
            return None
        style, sw = gen_switches(rng, counts, hots, len(th))
        ab = []
        if rng.random() < 0.12:
            t = rng.randrange(len(th))
            if counts[t]:
                ab.append([t, rng.randint(1, counts[t]), rng.choice(["deadline", "interrupt", "nomem"])])
        probe = []
        for _ in range(2):
            m, req = rng.choice(rng.choice(th))
            probe.append([m, req])
        return {"E": E, "M": M, "th": th, "op": opcodes, "sw": sw, "ab": ab, "first": rng.randrange(len(th)), "warm": rng.random() < 0.3,
                "probe": probe, "style": style, "rs": rng.randrange(1 << 30)}

    def calls(self, plan):
        for cs in plan["th"] + [plan["probe"]]:
            for m, req in cs:
                yield plan["M"][m][0], plan["M"][m][1], req

    def execute(self, plan, ctx):
        setup_run(plan)
        models = self.load(plan, ctx)
        bad = []
        ncalls = [0]
        inside = [0] * len(plan["th"])
        aborted = set()

        def check(m, req, got, who, allow=()):
            exp = self.gold(plan, ctx, m, req)["out"]
            ncalls[0] += 1
            if got != exp and not (got[0] == "raise" and got[1] in allow):
                bad.append(violation("%s: %s: %s" % (who, self.describe(plan, ctx, m, req), mismatch(got, exp)), sig=who.split()[0]))

        total = sum(max(self.gold(plan, ctx, m, r)["ops" if plan["op"] else "lines"], 1) for cs in plan["th"] for m, r in cs)
        if plan["warm"]:
            def warm():
                for m, req in plan["probe"]:
                    check(m, req, core.call(models[m], self.entry(plan, ctx, m), req), "warm-up")
            one_thread(warm)

        def thread(t):
            def body():
                for m, req in plan["th"][t]:
                    e = self.entry(plan, ctx, m)
                    p = payload(plan, ctx, m, req)
                    inside[t] = 1
                    got = core.outcome(lambda: core.invoke(models[m], req, p))
                    inside[t] = 0
                    nf = sum(1 for f in s.fired if f[0] == t)
                    allow = ()
                    if nf and t not in aborted:
                        aborted.add(t)
                        allow = [got[1]] if got[0] == "raise" else ()
                    check(m, req, got, "concurrent call of thread %d" % t, allow)
            return body

        s = Sched([thread(t) for t in range(len(plan["th"]))], switch=plan["sw"], abort=plan["ab"], opcodes=plan["op"],
                  cap=60 * total + 40000, first=plan["first"], quantum=3 * total + 2000)
        overlaps = []
        orig = s.switch_to

        def switch_to(t, to):
            n = len(s.trace)
            orig_pick = s._pick(to)
            if inside[t.tid] if t.tid < len(inside) else 0:
                if orig_pick is not None and orig_pick is not t:
                    overlaps.append(1)
            orig(t, to)
        s.switch_to = switch_to
        s.run()
        if s.problem:
            bad.append(violation("unfinished calls: %s" % s.problem, sig="stuck"))
        else:
            def after():
                for m, req in plan["probe"]:
                    check(m, req, core.call(models[m], self.entry(plan, ctx, m), req), "afterwards")
            s2, _ = one_thread(after, cap=60 * total + 400000)
            if s2.problem:
                bad.append(violation("afterwards stuck: %s" % s2.problem, sig="stuck"))
        f = {"preemption": len(s.trace)}
        for x in s.fired:
            f["abort:" + x[2]] = f.get("abort:" + x[2], 0) + 1
        return result(bad[0] if bad else None, f, ncalls[0], 0.0, core.digest(plan["th"], s.trace, s.fired), bool(overlaps),
                      trace=s.trace[:200], fired=s.fired, events=s.total)

    def shrink(self, plan):
        if plan["ab"]:
            yield dict(plan, ab=[])
        for sw in drop_each(plan["sw"]):
            yield dict(plan, sw=sw)
        for t in range(len(plan["th"])):
            for cs in drop_each(plan["th"][t]):
                if cs:
                    yield dict(plan, th=plan["th"][:t] + [cs] + plan["th"][t + 1:])
        if plan["warm"]:
            yield dict(plan, warm=False)
        if len(plan["probe"]) > 1:
            yield dict(plan, probe=plan["probe"][:1])
            yield dict(plan, probe=plan["probe"][1:])
        for t in range(len(plan["th"])):
            if len(plan["th"]) > 2:
                def mv(x):
                    return x - 1 if x > t else x
                yield dict(plan, th=plan["th"][:t] + plan["th"][t + 1:], first=mv(plan["first"]) if plan["first"] != t else 0,
                           sw=[[mv(a), k, mv(b)] for a, k, b in plan["sw"] if a != t and b != t],
                           ab=[[mv(a), k, x] for a, k, x in plan["ab"] if a != t])
        for t, cs in enumerate(plan["th"]):
            for i, (m, req) in enumerate(cs):
                if len(req.get("idx", ())) > 1:
                    for idx in drop_each(req["idx"]):
                        if idx:
                            yield dict(plan, th=plan["th"][:t] + [cs[:i] + [[m, dict(req, idx=idx)]] + cs[i + 1:]] + plan["th"][t + 1:])


# ---------------------------------------------------------------- C02
class C02(Prop):
    id = "C02"
    runs = (260, 5000)
    rule = ("a run = a history of 2-9 calls on 1-2 loaded models in which calls are aborted (deadline, keyboard interrupt, allocation failure) at "
            "line or bytecode granularity, repeatedly and also while other callers are running, with retries of the same request object and probes "
            "afterwards. Non-trivial: at least one abort was delivered inside a call.")

    def gen(self, rng, ctx):
        us = ctx.usable(self.families)
        E = [ctx.pick(rng, us)]
        if rng.random() < 0.15:
            E.append(ctx.pick(rng, us))
        M = [[i, ctx.version(E[i], rng)] for i in range(len(E))]
        steps = []
        opcodes = rng.random() < 0.6
        meth = [rng.choice(ctx.entries[E[0]]["methods"])] if rng.random() < 0.6 else None
        key, hk = ("ops", "ho") if opcodes else ("lines", "hl")

        def req_for(m):
            return core.gen_request(rng, ctx.entries[E[M[m][0]]], methods=meth if m == 0 else None, maxn=3, bad=0.04)

        for _ in range(rng.randint(1, 4)):
            m = rng.randrange(len(M)) if len(M) > 1 and rng.random() < 0.4 else 0
            req = req_for(m)
            g = ctx.golden(E[M[m][0]], M[m][1], req)
            n = g[key]
            if n > (MAX_OPS if opcodes else MAX_LINES):
                continue
            th = [[m, req]]
            sw = []
            if rng.random() < 0.25:
                m2 = rng.randrange(len(M))
                r2 = req_for(m2)
                g2 = ctx.golden(E[M[m2][0]], M[m2][1], r2)
                if g2[key] <= (MAX_OPS if opcodes else MAX_LINES):
                    th.append([m2, r2])
                    _, sw = gen_switches(rng, [n, g2[key]], [g[hk], g2[hk]], 2)
            ab = []
            x = rng.random()
            if x < 0.9 and n:
                for _ in range(rng.choice([1, 1, 1, 2])):
                    if g[hk] and rng.random() < 0.5:
                        k = min(max(1, rng.choice(g[hk]) + rng.choice([0, 0, 1, -1, 2])), n)
                    else:
                        k = rng.randint(1, n)
                    ab.append([0, k, rng.choice(["deadline", "deadline", "interrupt", "nomem"])])
                if rng.random() < 0.15 and ab:  # a second fault while the first one is being handled
                    ab.append([0, ab[0][1] + rng.randint(1, 6), rng.choice(["deadline", "interrupt"])])
            steps.append({"th": th, "sw": sw, "ab": ab, "retry": rng.random() < 0.7})
        if not steps:
            return None
        probe = [[s["th"][0][0], s["th"][0][1]] for s in steps][:2]
        m = rng.randrange(len(M))
        probe.append([m, req_for(m)])
        return {"E": E, "M": M, "steps": steps, "op": opcodes, "probe": probe, "warm": rng.random() < 0.35, "rs": rng.randrange(1 << 30)}

    def calls(self, plan):
        for st in plan["steps"]:
            for m, req in st["th"]:
                yield plan["M"][m][0], plan["M"][m][1], req
        for m, req in plan["probe"]:
            yield plan["M"][m][0], plan["M"][m][1], req

    def execute(self, plan, ctx):
        setup_run(plan)
        models = self.load(plan, ctx)
        bad, nc, faults, sigs = [], [0], {}, []
        key = "ops" if plan["op"] else "lines"

        def compare(m, req, got, who, may_raise=False):
            nc[0] += 1
            exp = self.gold(plan, ctx, m, req)["out"]
            if got != exp and not (may_raise and got[0] == "raise"):
                bad.append(violation("%s: %s: %s" % (who, self.describe(plan, ctx, m, req), mismatch(got, exp)), sig=who))

        if plan["warm"]:
            one_thread(lambda: [compare(m, r, core.call(models[m], self.entry(plan, ctx, m), r), "before any fault") for m, r in plan["probe"]])
        delivered = 0
        for st in plan["steps"]:
            pay = [payload(plan, ctx, m, r) for m, r in st["th"]]
            img = [ocanon(p) for p in pay]
            got = [None] * len(pay)
            tot = sum(max(1, self.gold(plan, ctx, m, r)[key]) for m, r in st["th"])

            def body(i):
                def run():
                    m, r = st["th"][i]
                    got[i] = core.outcome(lambda: core.invoke(models[m], r, pay[i]))
                return run
            s = Sched([body(i) for i in range(len(pay))], switch=st["sw"], abort=st["ab"], opcodes=plan["op"], cap=60 * tot + 40000, quantum=3 * tot + 2000)
            s.run()
            sigs.append((s.trace, s.fired))
            for x in s.fired:
                faults["abort:" + x[2]] = faults.get("abort:" + x[2], 0) + 1
            delivered += len(s.fired)
            if s.trace:
                faults["preemption"] = faults.get("preemption", 0) + len(s.trace)
            if s.problem:
                bad.append(violation("service stuck after an abort: %s" % s.problem, sig="stuck"))
                break
            for i, (m, r) in enumerate(st["th"]):
                hit = any(f[0] == i for f in s.fired)
                compare(m, r, got[i], "aborted call" if hit else "call beside an aborted one" if s.fired else "call without fault", hit)
                if ocanon(pay[i]) != img[i]:
                    bad.append(violation("request data changed by a call (aborted: %s): %s: %s -> %s" % (
                        hit, self.describe(plan, ctx, m, r), short(img[i]), short(ocanon(pay[i]))), sig="request changed"))
            if st["retry"] and not bad:
                m, r = st["th"][0]
                p = pay[0] if not hasattr(pay[0], "__next__") else payload(plan, ctx, m, r)
                s, g = one_thread(lambda: core.outcome(lambda: core.invoke(models[m], r, p)), cap=60 * tot + 40000)
                if s.problem:
                    bad.append(violation("retry stuck: %s" % s.problem, sig="stuck"))
                else:
                    compare(m, r, g, "retry after an abort")
            if bad:
                break
        if not bad:
            def after():
                for m, r in plan["probe"]:
                    compare(m, r, core.call(models[m], self.entry(plan, ctx, m), r), "call after faults stopped")
            s, _ = one_thread(after)
            if s.problem:
                bad.append(violation("service stuck after faults stopped: %s" % s.problem, sig="stuck"))
        return result(bad[0] if bad else None, faults, nc[0], 0.0, core.digest(plan["steps"], sigs), delivered > 0,
                      trace=[x[0][:50] for x in sigs], fired=[x[1] for x in sigs])

    def shrink(self, plan):
        for st in drop_each(plan["steps"]):
            if st:
                yield dict(plan, steps=st)
        if plan["warm"]:
            yield dict(plan, warm=False)
        for pr in drop_each(plan["probe"]):
            yield dict(plan, probe=pr)
        for i, st in enumerate(plan["steps"]):
            def put(x):
                return dict(plan, steps=plan["steps"][:i] + [x] + plan["steps"][i + 1:])
            if len(st["th"]) > 1:
                yield put(dict(st, th=st["th"][:1], sw=[]))
            for sw in drop_each(st["sw"]):
                yield put(dict(st, sw=sw))
            for ab in drop_each(st["ab"]):
                yield put(dict(st, ab=ab))
            if st["retry"]:
                yield put(dict(st, retry=False))


# ---------------------------------------------------------------- C03
class C03(Prop):
    id = "C03"
    runs = (240, 5000)
    rule = ("a run = one request object delivered 2-6 times: to the model, copies, other models and functions, to 1-3 threads at once, after "
            "aborted attempts; its exact image is compared at sampled points inside the calls (right after every write, plus random points) and after each "
            "delivery. Non-trivial: the image was compared at least once in the middle of a call.")

    def gen(self, rng, ctx):
        us = ctx.usable(self.families)
        a = ctx.pick(rng, us)
        ea = ctx.entries[a]
        E = [a]
        mates = [i for i in us if i != a and ctx.entries[i]["family"] in (("num", "func") if ea["family"] in ("num", "func") else (ea["family"],))]
        near = [i for i in mates if ctx.entries[i]["d"] == ea["d"]]
        for _ in range(rng.choice([0, 0, 1, 2])):
            if mates:
                E.append(rng.choice(near or mates))
        M = [[p, ctx.version(E[p], rng)] for p in range(len(E))]
        if rng.random() < 0.3:
            M.append([0, ctx.version(a, rng)])
        base = core.gen_request(rng, ea, maxn=4, bad=0.05)
        opcodes = rng.random() < 0.4
        key, hk = ("ops", "ho") if opcodes else ("lines", "hl")
        steps = []
        for _ in range(rng.randint(2, 5)):
            th, counts, hots = [], [], []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                m = rng.randrange(len(M))
                e = ctx.entries[E[M[m][0]]]
                if e["family"] == "ft" or ea["family"] == "ft":
                    if e["family"] != ea["family"]:
                        continue
                    req = dict(base) if M[m][0] == 0 else None
                    if req is None or ("k" in req and "predict" not in e["methods"]):
                        continue
                else:
                    req = dict(base, m=rng.choice(e["methods"]))
                    if "bad" not in base and ea["family"] == "func" and req.get("form") == "sparse" and (req["m"].endswith("_self") or req["m"].endswith("axis0")):
                        continue
                if M[m][0] != 0:
                    req["src"] = 0
                g = ctx.golden(E[M[m][0]], M[m][1], self.translate(E, req))
                if g[key] > (MAX_OPS if opcodes else MAX_LINES):
                    continue
                th.append([m, req])
                counts.append(g[key])
                hots.append(g[hk])
            if not th:
                continue
            sw = gen_switches(rng, counts, hots, len(th))[1] if len(th) > 1 else []
            ab = []
            if rng.random() < 0.35 and counts[0]:
                k = rng.choice(hots[0]) if hots[0] and rng.random() < 0.5 else rng.randint(1, counts[0])
                ab = [[0, k, rng.choice(["deadline", "interrupt", "nomem"])]]
            steps.append({"th": th, "sw": sw, "ab": ab, "at": sorted(rng.sample(range(1, max(sum(counts), 2)), min(6, max(sum(counts), 2) - 1)))})
        if not steps:
            return None
        return {"E": E, "M": M, "steps": steps, "op": opcodes, "rs": rng.randrange(1 << 30)}

    @staticmethod
    def translate(E, req):
        return dict(req, src=E[req["src"]]) if "src" in req else req

    def gold(self, plan, ctx, m, req):
        p, v = plan["M"][m]
        return ctx.golden(plan["E"][p], v, self.translate(plan["E"], req))

    def calls(self, plan):
        for st in plan["steps"]:
            for m, req in st["th"]:
                yield plan["M"][m][0], plan["M"][m][1], self.translate(plan["E"], req)

    def execute(self, plan, ctx):
        setup_run(plan)
        models = self.load(plan, ctx)
        req0 = plan["steps"][0]["th"][0]
        P = payload(plan, ctx, req0[0], req0[1])
        stream = hasattr(P, "__next__")
        img = ocanon(P)
        Ys = [(m, ocanon(m.Y)) for m in models if isinstance(m, core.FuncModel)]
        bad, nc, faults, looked, log = [], [0], {}, [0], []
        key = "ops" if plan["op"] else "lines"

        def look(when):
            looked[0] += 1
            if ocanon(P) != img:
                bad.append(violation("request data changed %s: %s -> %s" % (when, short(img), short(ocanon(P))), sig="request changed"))
            for m, y in Ys:
                if ocanon(m.Y) != y:
                    bad.append(violation("second operand changed %s: %s -> %s" % (when, short(y), short(ocanon(m.Y))), sig="request changed"))

        for si, st in enumerate(plan["steps"]):
            if stream:
                P = payload(plan, ctx, st["th"][0][0], st["th"][0][1])
            points = set(st["at"])
            budget = [120]

            def observer(s, t, code, where):
                if bad:
                    return
                if s.total in points or (budget[0] and where in _write_sites(code)[0 if plan["op"] else 1]):
                    budget[0] -= 1 if budget[0] else 0
                    s.quiet = True
                    try:
                        look("in the middle of a call, at %s" % s._where(code, where))
                    finally:
                        s.quiet = False
            got = [None] * len(st["th"])

            def body(i):
                def run():
                    m, r = st["th"][i]
                    got[i] = core.outcome(lambda: core.invoke(models[m], r, P))
                return run
            tot = sum(max(1, self.gold(plan, ctx, m, r)[key]) for m, r in st["th"])
            s = Sched([body(i) for i in range(len(got))], switch=st["sw"], abort=st["ab"], opcodes=plan["op"], observer=observer,
                      cap=60 * tot + 40000, quantum=3 * tot + 2000)
            s.run()
            log.append((s.trace, s.fired))
            for x in s.fired:
                faults["abort:" + x[2]] = faults.get("abort:" + x[2], 0) + 1
            faults["preemption"] = faults.get("preemption", 0) + len(s.trace)
            faults["redelivery"] = faults.get("redelivery", 0) + len(got)
            if not bad:
                look("after delivery %d" % (si + 1))
            if s.problem:
                bad.append(violation("delivery stuck: %s" % s.problem, sig="stuck"))
            if not (stream and len(got) > 1):
                for i, (m, r) in enumerate(st["th"]):
                    nc[0] += 1
                    exp = self.gold(plan, ctx, m, r)["out"]
                    hit = any(f[0] == i for f in s.fired)
                    if got[i] != exp and not (hit and got[i] is not None and got[i][0] == "raise") and not s.problem:
                        bad.append(violation("delivery %d: %s: %s" % (si + 1, self.describe(plan, ctx, m, r), mismatch(got[i], exp)), sig="redelivery"))
            if bad:
                break
        return result(bad[0] if bad else None, faults, nc[0], 0.0, core.digest(plan["steps"], log), looked[0] > len(plan["steps"]),
                      fired=[x[1] for x in log], looked=looked[0])

    def shrink(self, plan):
        for st in drop_each(plan["steps"]):
            if st and (st[0]["th"][0][1] == plan["steps"][0]["th"][0][1] or "src" not in st[0]["th"][0][1]):
                yield dict(plan, steps=st)
        for i, st in enumerate(plan["steps"]):
            def put(x):
                return dict(plan, steps=plan["steps"][:i] + [x] + plan["steps"][i + 1:])
            for j in range(1, len(st["th"])):
                yield put(dict(st, th=st["th"][:1], sw=[]))
            for ab in drop_each(st["ab"]):
                yield put(dict(st, ab=ab))
            for sw in drop_each(st["sw"]):
                yield put(dict(st, sw=sw))
        # shorter request (the same for every delivery)
        idx = plan["steps"][0]["th"][0][1].get("idx")
        if idx and len(idx) > 1:
            for sub in drop_each(idx):
                if sub:
                    yield dict(plan, steps=[dict(st, th=[[m, dict(r, idx=sub)] for m, r in st["th"]]) for st in plan["steps"]])


# ---------------------------------------------------------------- C04
class C04(Prop):
    id = "C04"
    runs = (320, 6000)
    rule = ("a run = 4-16 events: calls whose answers and request objects are kept, in-place edits of any container of any kept answer or request, "
            "reuse of request objects; after every event all kept data is compared with private copies and later answers with undisturbed ones. "
            "Non-trivial: at least one edit hit a container.")
    components = {"real": Prop.components["real"], "simulated": ["callers that edit and reuse their data", "clocks", "random seeds"]}

    def gen(self, rng, ctx):
        us = ctx.usable(self.families)
        E = [ctx.pick(rng, us)]
        if rng.random() < 0.2:
            E.append(ctx.pick(rng, us))
        M = [[i, ctx.version(E[i], rng)] for i in range(len(E))]
        meth = [rng.choice(ctx.entries[E[0]]["methods"])] if rng.random() < 0.5 else None
        ev, n = [], 0
        for _ in range(rng.randint(4, 16)):
            x = rng.random()
            if x < 0.5 or n == 0:
                m = rng.randrange(len(M)) if rng.random() < 0.5 else 0
                ev.append(["call", m, core.gen_request(rng, ctx.entries[E[M[m][0]]], methods=meth if m == 0 else None, maxn=4, bad=0.05)])
                n += 1
            elif x < 0.55:
                ev.append(["again", rng.randrange(n), rng.random() < 0.5])
            elif x < 0.82:
                ev.append(["edit", rng.randrange(n), rng.random(), rng.choice(core.HOWS)])
            else:
                ev.append(["reuse", rng.randrange(n), rng.random(), rng.choice(core.HOWS)])
        for c in [e for e in ev if e[0] == "call"][:3]:
            ev.append(list(c))
        return {"E": E, "M": M, "ev": ev, "rs": rng.randrange(1 << 30)}

    def calls(self, plan):
        for e in plan["ev"]:
            if e[0] == "call":
                yield plan["M"][e[1]][0], plan["M"][e[1]][1], e[2]

    def execute(self, plan, ctx):
        setup_run(plan)
        models = self.load(plan, ctx)
        kept = []   # [answer, its clone, payload slot, m, req, image]
        slots = []  # [request object, its clone, image]
        bad, nc, edits = [], 0, {}
        gc.disable()

        def verify(after):
            for i, k in enumerate(kept):
                if ocanon(k[0]) != k[5]:
                    bad.append(violation("answer %d (%s) changed after %s: %s -> %s" % (i, self.describe(plan, ctx, k[3], k[4]), after, short(k[5]), short(ocanon(k[0]))),
                                         sig="answer changed"))
                sl = slots[k[2]]
                if ocanon(sl[0]) != sl[2]:
                    bad.append(violation("request %d (%s) changed after %s: %s -> %s" % (i, self.describe(plan, ctx, k[3], k[4]), after, short(sl[2]), short(ocanon(sl[0]))),
                                         sig="request changed"))

        def do_call(m, req, slot):
            nonlocal nc
            nc += 1
            box = []
            p = slots[slot][0]

            def go():
                box.append(core.invoke(models[m], req, p))
                return box[0]
            got = core.outcome(go)
            exp = self.gold(plan, ctx, m, req)["out"]
            if got != exp:
                bad.append(violation("later call: %s: %s" % (self.describe(plan, ctx, m, req), mismatch(got, exp)), sig="later answer"))
            a = box[0] if box else None
            kept.append([a, core.clone(a), slot, m, req, ocanon(a)])

        for e in plan["ev"]:
            if e[0] == "call":
                p = payload(plan, ctx, e[1], e[2])
                slots.append([p, core.clone(p), ocanon(p)])
                do_call(e[1], e[2], len(slots) - 1)
                what = "a call"
            elif e[0] == "again":
                if e[1] >= len(kept):
                    continue
                k = kept[e[1]]
                if slots[k[2]][2] != ocanon(payload(plan, ctx, k[3], k[4])) or hasattr(slots[k[2]][0], "__next__"):
                    continue  # the caller edited that request
                do_call(k[3], k[4], k[2])
                what = "a call reusing a request object"
            else:
                if e[1] >= len(kept):
                    continue
                k = kept[e[1]]
                target = k if e[0] == "edit" else slots[k[2]]
                paths = core.containers(target[0])
                if not paths:
                    continue
                path = paths[int(e[2] * len(paths))]
                try:
                    core.scribble(core.at(target[0], path), e[3])
                    core.scribble(core.at(target[1], path), e[3])
                except Exception:
                    continue
                target[-1] = ocanon(target[1])
                name = "answer" if e[0] == "edit" else "request"
                what = "the caller's edit (%s at %s) of %s %d" % (e[3], list(path), name, e[1])
                edits["edit:" + name] = edits.get("edit:" + name, 0) + 1
            verify(what)
            if bad:
                break
        return result(bad[0] if bad else None, edits, nc, 0.0, core.digest(plan["ev"], plan["E"]), bool(edits))

    def shrink(self, plan):
        ev = plan["ev"]
        for i in range(len(ev)):
            # removing a call shifts the numbers of kept answers
            new, removed = [], None
            cnt = -1
            for j, e in enumerate(ev):
                if e[0] in ("call", "again"):
                    cnt += 1
                    if j == i:
                        removed = cnt
                if j == i:
                    continue
                if e[0] != "call" and removed is not None:
                    if e[1] == removed:
                        continue
                    if e[1] > removed:
                        e = [e[0], e[1] - 1] + list(e[2:])
                new.append(e)
            if new:
                yield dict(plan, ev=new)
        for i, e in enumerate(ev):
            if e[0] == "call" and len(e[2].get("idx", ())) > 1:
                for idx in drop_each(e[2]["idx"]):
                    if idx:
                        yield dict(plan, ev=ev[:i] + [["call", e[1], dict(e[2], idx=idx)]] + ev[i + 1:])


# ---------------------------------------------------------------- C05
ROWWISE_EXCLUDE = ("axis0", "_self")


def rowwise(m):
    return not m.endswith(ROWWISE_EXCLUDE)


class C05(Prop):
    id = "C05"
    runs = (300, 6000)
    rule = ("a run = a simulated batching front end: single-record requests arrive at virtual times, are coalesced by window and size into batches, "
            "dispatched (to 1-3 worker threads sharing the model in a third of the runs), retried by bisection when a batch is rejected, with malformed records mixed in. Every "
            "row is compared with the answer to that record sent alone. Non-trivial: a batch of two or more records was answered.")
    components = {"real": Prop.components["real"], "simulated": ["request arrivals, batching queue, workers", "clocks", "random seeds"]}

    def gen(self, rng, ctx):
        us = [i for i in ctx.usable(self.families) if any(rowwise(m) for m in ctx.entries[i]["methods"])
              and not (ctx.entries[i]["family"] == "ft" and "predict" not in ctx.entries[i]["methods"])]
        e = ctx.pick(rng, us)
        entry = ctx.entries[e]
        if entry["family"] == "ft":
            k, thr = rng.choice(entry["kws"])
            base = {"m": "predict", "k": k, "thr": thr}
            form = "list"
        else:
            meth = rng.choice([m for m in entry["methods"] if rowwise(m)])
            form = rng.choice(entry["forms"])
            base = {"m": meth}
        npool = len(entry["pool"])
        nb = rng.choice([0, 0, 0, 1, 2]) if entry["bad"] else 0
        bads = [i for i, b in enumerate(entry["bad"]) if b["form"] == "list" and isinstance(b["records"], list) and b["records"]]
        t, arr = 0.0, []
        rush = rng.random() < 0.04 and ctx.cost(e) < 3000
        if rush:  # many records at once, most of them new
            n, npool = rng.choice([40, 70, 140, 270, 300, 530]), 40
        for i in range(n if rush else rng.randint(2, 14)):
            t += rng.expovariate(1.0) * rng.choice([0.1, 1.0]) * (0.001 if rush else 1.0)
            arr.append([round(t, 3), rng.randrange(npool)])
        poison = []
        if bads and form == "list":
            for _ in range(nb):
                poison.append([rng.randrange(len(arr)), rng.choice(bads)])
        return {"E": [e], "M": [[0, ctx.version(e, rng)]], "req": base, "form": form, "arr": arr, "poison": poison, "maxb": rng.choice([2, 3, 4, 8, 16]) if not rush else rng.choice([33, 64, 65, 100, 128, 256, 600, 600]),
                "win": rng.choice([0.0, 0.5, 2.0, 5.0]) if not rush else 5.0, "workers": rng.choice([1, 1, 2, 3]), "sw": [[0, rng.randint(1, 900), 1] for _ in range(3)],
                "shuffle": rng.random() < 0.3, "rs": rng.randrange(1 << 30)}

    def single(self, plan, ctx, rec):
        """undisturbed outcome of one record: rec = pool index or ["bad", i]"""
        req = dict(plan["req"], form=plan["form"])
        if isinstance(rec, list):
            req = dict(plan["req"], badrow=rec[1], form=plan["form"])
        else:
            req["idx"] = [rec]
        return req

    def records(self, plan):
        out = [a[1] for a in plan["arr"]]
        for pos, b in plan["poison"]:
            if pos < len(out):
                out[pos] = ["bad", b]
        return out

    def calls(self, plan):
        for r in self.records(plan):
            yield 0, plan["M"][0][1], self.single(plan, None, r)

    def execute(self, plan, ctx):
        setup_run(plan)
        model = self.load(plan, ctx)[0]
        entry = self.entry(plan, ctx, 0)
        recs = self.records(plan)
        order = list(range(len(recs)))
        batches, i = [], 0
        # virtual arrivals -> batches
        while i < len(order):
            j = i + 1
            while j < len(order) and j - i < plan["maxb"] and plan["arr"][order[j]][0] <= plan["arr"][order[i]][0] + plan["win"]:
                j += 1
            batches.append(order[i:j])
            i = j
        rng = random.Random(plan["rs"])
        if plan["shuffle"]:
            for b in batches:
                rng.shuffle(b)
        bad, answered = [], {}
        st = {"calls": 0, "multi": 0, "rejected": 0}
        queue = list(batches)
        single = {}
        for k, r in enumerate(recs):
            single[k] = self.gold(plan, ctx, 0, self.single(plan, ctx, r))

        def value(k):
            r = recs[k]
            if isinstance(r, list):
                return core.copy_record(core.bad_row(entry, r[1]))
            return core.copy_record(core.derived(entry["pool"], r))

        width = len(entry["pool"][0]) if entry["family"] in ("num", "cat", "func") else None

        def fine(k):
            """acceptable alone and of the width of the others"""
            return single[k]["out"][0] == "ok" and (width is None or not isinstance(recs[k], list) or len(value(k)) == width)

        def serve(batch):
            rows = [value(k) for k in batch]
            if plan["form"] == "sparse":
                rows = core.to_sparse(rows, len(rows[0]))
            st["calls"] += 1
            box = []

            def go():
                box.append(core.invoke(model, plan["req"], rows))
            got = core.outcome(go)
            if got[0] == "raise":
                st["rejected"] += 1
                if all(fine(k) for k in batch):
                    bad.append(violation("batch %s of individually acceptable records rejected (%s): %s" % (
                        [recs[k] for k in batch], got[1], self.describe(plan, ctx, 0, plan["req"])), sig="rejected"))
                    return
                if len(batch) > 1:  # bisect
                    h = len(batch) // 2
                    queue.append(batch[:h])
                    queue.append(batch[h:])
                return
            ans = box[0]
            if len(batch) > 1:
                st["multi"] += 1
            rows_out = list(zip(*ans)) if entry["family"] == "ft" else ans
            try:
                n = len(rows_out)
            except TypeError:
                n = -1
            if n != len(batch):
                if all(fine(k) for k in batch):
                    bad.append(violation("batch of %d records got %d rows: %s" % (len(batch), n, self.describe(plan, ctx, 0, plan["req"])), sig="rows"))
                return
            for pos, k in enumerate(batch):
                if single[k]["out"][0] != "ok":
                    continue
                one = single[k]["value"]
                exp = (list(zip(*one)) if entry["family"] == "ft" else one)[0]
                if not approx(rows_out[pos], exp, 1e-9, 1e-12):
                    bad.append(violation("record %s in batch %s (position %d): got %s, alone %s: %s" % (
                        recs[k], [recs[x] for x in batch], pos, short(rows_out[pos]), short(exp), self.describe(plan, ctx, 0, plan["req"])), sig="row"))
                    return
                answered[k] = 1

        def worker():
            while queue and not bad:
                serve(queue.pop(0))
        nw = plan["workers"]
        s = Sched([worker] * nw, switch=[x for x in plan["sw"]] if nw > 1 else [], cap=5000000, quantum=200000)
        s.run()
        if s.problem:
            bad.append(violation("batching service stuck: %s" % s.problem, sig="stuck"))
        if not bad:
            for k in range(len(recs)):
                if single[k]["out"][0] == "ok" and k not in answered:
                    bad.append(violation("record %s never answered" % (recs[k],), sig="unanswered"))
        f = {"malformed record in batch": len(plan["poison"]), "preemption": len(s.trace), "batch rejected": st["rejected"]}
        return result(bad[0] if bad else None, f, st["calls"], plan["arr"][-1][0] if plan["arr"] else 0.0,
                      core.digest(plan["E"], plan["req"], recs, batches, s.trace), st["multi"] > 0)

    def shrink(self, plan):
        if plan["workers"] > 1:
            yield dict(plan, workers=1)
        for p in drop_each(plan["poison"]):
            yield dict(plan, poison=p)
        if not plan["poison"]:
            for a in drop_each(plan["arr"]):
                if a:
                    yield dict(plan, arr=a)
        else:
            for i in range(len(plan["arr"])):
                if all(p[0] != i for p in plan["poison"]) and len(plan["arr"]) > 1:
                    yield dict(plan, arr=plan["arr"][:i] + plan["arr"][i + 1:], poison=[[p[0] - (p[0] > i), p[1]] for p in plan["poison"]])
        if plan["shuffle"]:
            yield dict(plan, shuffle=False)


# ---------------------------------------------------------------- C09
class C09(Prop):
    id = "C09"
    runs = (110, 3000)
    kinds = ("vectorizer", "dictvec", "pipe_text", "pipe_cat")
    rule = ("a run = 1-4 streams consumed by vectorizers: generator, iterator object or queue reader producers that fail at a record, yield to other threads, or "
            "call the same model while being consumed. Pull order and count are recorded, rows compared with each record's own answer. "
            "Non-trivial: a stream was consumed with a fault, a pause or a re-entrant call in it, or had at least 3 records.")
    components = {"real": Prop.components["real"], "simulated": ["producers of record streams", "thread scheduler", "clocks", "random seeds"]}

    def gen(self, rng, ctx):
        # a FeatureUnion hands one stream to several vectorizers: not a single consumer
        us = [i for i in ctx.usable(("docs", "dicts")) if "FeatureUnion" not in ctx.entries[i]["desc"]]
        if not us:
            return None
        E = [ctx.pick(rng, us)]
        if rng.random() < 0.25:
            E.append(ctx.pick(rng, us))
        M = [[i, ctx.version(E[i], rng)] for i in range(len(E))]
        steps = []
        for _ in range(rng.randint(1, 4)):
            th = []
            for _ in range(rng.choice([1, 1, 2])):
                m = rng.randrange(len(M))
                e = ctx.entries[E[M[m][0]]]
                n = rng.choice([1, 2, 3, 4, 6, 12])
                if rng.random() < 0.03 and ctx.cost(E[M[m][0]]) < 1500:  # a stream longer than any plausible chunk
                    n = rng.choice([33, 65, 130, 257, 300])
                acts = {}
                for i in range(n + 1):
                    x = rng.random() * (1 if n < 20 else n / 6)
                    if x < 0.12:
                        acts[str(i)] = ["call", core.gen_request(rng, e, maxn=2, forms=["list"])]
                    elif x < 0.28:
                        acts[str(i)] = ["yield", rng.randrange(3)]
                if rng.random() < 0.35:
                    i = rng.randint(0, n) if rng.random() < 0.8 else n
                    acts[str(i)] = ["fail", rng.choice(["OSError", "Deadline", "KeyboardInterrupt", "ValueError", "KeyError", "TypeError", "IndexError",
                                                        "AttributeError", "StopIteration", "RuntimeError", "UnicodeDecodeError", "GeneratorExit", "AssertionError"])]
                th.append({"m": m, "meth": rng.choice([x for x in e["methods"]]), "idx": [rng.randrange(len(e["pool"])) for _ in range(n)],
                           "kind": rng.choice(["gen", "iter", "iterable", "map"]), "act": acts})
            steps.append({"th": th, "sw": [[rng.randrange(len(th)), rng.randint(1, 400), rng.randrange(2)] for _ in range(rng.choice([0, 0, 2, 5]))] if len(th) > 1 else []})
        return {"E": E, "M": M, "steps": steps, "rs": rng.randrange(1 << 30)}

    def singles(self, plan, x):
        return [{"m": x["meth"], "form": "list", "idx": [i]} for i in x["idx"]]

    def calls(self, plan):
        for st in plan["steps"]:
            for x in st["th"]:
                p, v = plan["M"][x["m"]]
                for r in self.singles(plan, x):
                    yield p, v, r
                yield p, v, {"m": x["meth"], "form": "list", "idx": x["idx"]}
                for a in x["act"].values():
                    if a[0] == "call":
                        yield p, v, a[1]

    def execute(self, plan, ctx):
        import builtins
        from sched import Deadline
        setup_run(plan)
        models = self.load(plan, ctx)
        bad, nc, f, nontriv, log = [], [0], {}, [False], []
        state = {}

        def producer(x, pulled, s_box):
            e = self.entry(plan, ctx, x["m"])

            def act(i):
                a = x["act"].get(str(i))
                if a is None:
                    return
                nontriv[0] = True
                if a[0] == "fail":
                    f["producer failure"] = f.get("producer failure", 0) + 1
                    ex = getattr(builtins, a[1], None)
                    if a[1] == "UnicodeDecodeError":
                        raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "simulated")
                    raise (ex or Deadline)("simulated producer failure")
                if a[0] == "yield":
                    f["producer pause"] = f.get("producer pause", 0) + 1
                    s = s_box[0]
                    s.switch_to(s.cur, a[1])
                elif a[0] == "call":
                    f["re-entrant call"] = f.get("re-entrant call", 0) + 1
                    got = core.call(models[x["m"]], e, a[1])
                    exp = self.gold(plan, ctx, x["m"], a[1])["out"]
                    nc[0] += 1
                    if got != exp:
                        bad.append(violation("call made by the producer of a stream: %s: %s" % (self.describe(plan, ctx, x["m"], a[1]), mismatch(got, exp)), sig="reentrant"))

            def rec(i):
                act(i)
                pulled.append(i)
                return core.copy_record(e["pool"][x["idx"][i]])

            n = len(x["idx"])
            if x["kind"] == "gen":
                def g():
                    for i in range(n):
                        yield rec(i)
                    act(n)
                return g()
            if x["kind"] == "map":
                def idx():
                    for i in range(n):
                        yield i
                    act(n)
                return map(rec, idx())

            class Stream:
                def __init__(self):
                    self.i = 0

                def __iter__(self):
                    return self

                def __next__(self):
                    i = self.i
                    self.i += 1
                    if i >= n:
                        if i == n:
                            act(n)
                        raise StopIteration
                    return rec(i)
            if x["kind"] == "iter":
                return Stream()

            class Source:  # iterable over one connection: a second pass finds it drained
                def __init__(self):
                    self.s = Stream()

                def __iter__(self):
                    return self.s
            return Source()

        for st in plan["steps"]:
            s_box = [None]
            res = [None] * len(st["th"])

            def body(i):
                def run():
                    x = st["th"][i]
                    pulled = []
                    src = producer(x, pulled, s_box)
                    box = []

                    def go():
                        box.append(getattr(models[x["m"]], x["meth"])(src))
                    out = core.outcome(go)
                    res[i] = (out, box[0] if box else None, pulled)
                return run
            s = s_box[0] = Sched([body(i) for i in range(len(res))], switch=st["sw"], cap=4000000, quantum=100000)
            s.run()
            log.append(s.trace)
            f["preemption"] = f.get("preemption", 0) + len(s.trace)
            if s.problem:
                bad.append(violation("stream consumption stuck: %s" % s.problem, sig="stuck"))
                break
            for i, x in enumerate(st["th"]):
                out, val, pulled = res[i]
                nc[0] += 1
                desc = self.describe(plan, ctx, x["m"], {"m": x["meth"], "stream": x["kind"], "idx": x["idx"], "act": x["act"]})
                n = len(x["idx"])
                if n >= 3:
                    nontriv[0] = True
                if pulled != list(range(len(pulled))):
                    bad.append(violation("records pulled out of order or twice: %s: %s" % (pulled, desc), sig="order"))
                    continue
                fail = sorted(int(k) for k, a in x["act"].items() if a[0] == "fail")
                whole = self.gold(plan, ctx, x["m"], {"m": x["meth"], "form": "list", "idx": x["idx"]})
                if fail:
                    name = x["act"][str(fail[0])][1]
                    # a StopIteration out of an iterator object is the end of the stream by definition;
                    # inside a generator python turns it into RuntimeError
                    if name == "StopIteration" and x["kind"] in ("iter", "iterable", "map"):
                        continue
                    want = "RuntimeError" if name == "StopIteration" else name
                    if out[0] == "ok":
                        bad.append(violation("producer failed (%s at record %d) but an answer was returned: %s" % (name, fail[0], desc), sig="swallowed"))
                    elif out[1] != want and whole["out"][0] == "ok":
                        bad.append(violation("producer failed with %s but the caller saw %s: %s" % (want, out[1], desc), sig="other error"))
                    elif len(pulled) != fail[0] and whole["out"][0] == "ok":
                        bad.append(violation("%d records pulled before a failure at record %d: %s" % (len(pulled), fail[0], desc), sig="order"))
                    continue
                singles = [self.gold(plan, ctx, x["m"], r) for r in self.singles(plan, x)]
                if out[0] == "raise":
                    if whole["out"][0] == "ok" and all(g["out"][0] == "ok" for g in singles):
                        bad.append(violation("stream rejected (%s) though every record is acceptable: %s" % (out[1], desc), sig="rejected"))
                    continue
                if len(pulled) != n:
                    bad.append(violation("%d of %d records consumed: %s" % (len(pulled), n, desc), sig="order"))
                    continue
                if len(val) != n:
                    bad.append(violation("%d rows for %d records: %s" % (len(val), n, desc), sig="rows"))
                    continue
                for j, g in enumerate(singles):
                    if g["out"][0] == "ok" and not approx(val[j], g["value"][0], 1e-9, 1e-12):
                        bad.append(violation("row %d: got %s, alone %s: %s" % (j, short(val[j]), short(g["value"][0]), desc), sig="row"))
                        break
            if bad:
                break
        return result(bad[0] if bad else None, f, nc[0], 0.0, core.digest(plan["steps"], plan["E"], log), nontriv[0])

    def shrink(self, plan):
        for st in drop_each(plan["steps"]):
            if st:
                yield dict(plan, steps=st)
        for i, st in enumerate(plan["steps"]):
            def put(x):
                return dict(plan, steps=plan["steps"][:i] + [x] + plan["steps"][i + 1:])
            if len(st["th"]) > 1:
                yield put(dict(st, th=st["th"][:1], sw=[]))
                yield put(dict(st, th=st["th"][1:], sw=[]))
            for sw in drop_each(st["sw"]):
                yield put(dict(st, sw=sw))
            for j, x in enumerate(st["th"]):
                for k in x["act"]:
                    a = dict(x["act"])
                    a.pop(k)
                    yield put(dict(st, th=st["th"][:j] + [dict(x, act=a)] + st["th"][j + 1:]))
                if len(x["idx"]) > 1 and not x["act"]:
                    for idx in drop_each(x["idx"]):
                        if idx:
                            yield put(dict(st, th=st["th"][:j] + [dict(x, idx=idx)] + st["th"][j + 1:]))


# ---------------------------------------------------------------- C12
class C12(Prop):
    id = "C12"
    runs = (120, 2500)
    rule = ("a run = one process serving 30-400 (soak: up to 4000) requests over 1-6 coexisting models: valid and rejected requests, loads and discards of models (down to one at a time, each taking the memory of the last), "
            "request objects that are new, recycled at the same address or refilled in place, virtual time passing and jumping. Every answer is compared with the undisturbed one. "
            "Non-trivial: at least 20 answers compared.")
    components = {"real": Prop.components["real"], "simulated": ["callers, request object reuse", "clocks", "random seeds"]}

    def gen(self, rng, ctx):
        us = ctx.usable(self.families)
        style = rng.choice(["mixed", "mixed", "single", "kin", "soak", "churn"])
        if rng.random() < 0.04:
            style = "wide"
        elif rng.random() < 0.08:  # tables of words and documents
            text = [i for i in us if ctx.entries[i]["family"] in ("docs", "ft", "dicts")]
            if text:
                style, us = "wide", text
        if style in ("single", "soak", "wide"):
            E = [ctx.pick(rng, us)]
            if style == "wide" and ctx.cost(E[0]) > 2500:
                style = "single"
        elif style in ("kin", "churn"):
            a = ctx.pick(rng, us)
            kin = [i for i in us if ctx.entries[i]["spec"]["kind"] == ctx.entries[a]["spec"]["kind"] and i != a]
            rng.shuffle(kin)
            E = [a] + kin[:rng.randint(1, 3)]
        else:
            E = [ctx.pick(rng, us) for _ in range(rng.randint(2, 6))]
        M = []
        for p in range(len(E)):
            for v in range(len(ctx.entries[E[p]]["versions"])):
                if "error" not in ctx.entries[E[p]]["versions"][v] and (not M or rng.random() < 0.6):
                    M.append([p, v])
        for p in range(len(E)):
            if not any(m[0] == p for m in M):
                M.append([p, ctx.version(E[p])])
        reqs, cost = [], []
        for _ in range(rng.randint(3, 14)):
            m = rng.randrange(len(M))
            reqs.append([m, core.gen_request(rng, ctx.entries[E[M[m][0]]], maxn=rng.choice([1, 3, 6]), bad=0.2)])
            g = ctx.golden(E[M[m][0]], M[m][1], reqs[-1][1])
            cost.append(g["ops"])
        if style == "wide":
            # hundreds of different records, most of them seen again in another request
            m, e = 0, ctx.entries[E[M[0][0]]]
            base = [r for _, r in reqs if "idx" in r and len(r["idx"]) > 1] or [r for _, r in reqs if "idx" in r]
            span = rng.choice([150, 400, 900, 1500])
            many = e["family"] != "ft" or "list" in e["forms"]
            reqs, cost = [], []
            for j in range(rng.choice([24, 48]) if base else 0):
                r = dict(rng.choice(base))
                if len(r["idx"]) > 1 or many and r["form"] != "one":
                    a = rng.randrange(span)
                    r["idx"] = [(a + k) % span for k in range(16)]
                else:
                    r["idx"] = [rng.randrange(span)]
                reqs.append([m, r])
                ctx.golden(E[0], M[0][1], r, light=True)
                cost.append(ctx.cost(E[0]) * len(r["idx"]))
            if not base:
                return None
        # a budget of executed bytecodes rather than a count: cheap calls are asked thousands of times
        budget = 3000000 if style == "soak" else 700000
        n = int(min(4000 if style == "soak" else 60 if style == "churn" else 400, max(20, budget // (sum(cost) // len(cost) + 200))))
        return {"E": E, "M": M, "reqs": reqs, "n": n, "style": style, "reload": rng.choice([0.0, 0.02, 0.1]) if style != "churn" else rng.choice([0.5, 1.0]), "refill": rng.choice([0.0, 0.2, 0.5]),
                "burst": rng.choice([1, 1, 3, 30]), "jump": rng.random() < 0.5, "rs": rng.randrange(1 << 30)}

    def prepare(self, plan, ctx):
        for p, v, req in self.calls(plan):
            ctx.golden(plan["E"][p], v, req, light=True)

    def calls(self, plan):
        for m, r in plan["reqs"]:
            yield plan["M"][m][0], plan["M"][m][1], r

    def execute(self, plan, ctx):
        setup_run(plan)
        rng = random.Random(plan["rs"] ^ 0x5bd1e995)
        models = self.load(plan, ctx)
        gold = [self.gold(plan, ctx, m, r)["out"] for m, r in plan["reqs"]]
        order = []
        keep = plan.get("only")
        bad, nc, f = [], 0, {}
        buffers = {}
        i = None
        steps = plan.get("log")
        log = []
        if steps is None:
            steps = []
            for _ in range(plan["n"]):
                if i is None or rng.random() < 1.0 / plan["burst"]:
                    i = rng.randrange(len(plan["reqs"]))
                st = [i, 0, 0.0]
                if rng.random() < plan["reload"]:
                    st[1] |= 1
                if rng.random() < plan["refill"]:
                    st[1] |= 2
                if plan["jump"] and rng.random() < 0.1:
                    st[2] = rng.choice([0.001, 1.0, 61.0, 3700.0, 90000.0, -5.0])
                steps.append(st)
        simtime = 0.0

        def go():
            nonlocal nc, simtime
            for st in steps:
                i = st[0]
                m, req = plan["reqs"][i]
                e = self.entry(plan, ctx, m)
                if st[1] & 1:
                    p, v = plan["M"][m]
                    for k in range(len(models)) if plan["style"] == "churn" else (m,):
                        models[k] = None
                    core.sim_id.sweep()
                    models[m] = core.load_model(ctx.entries[plan["E"][p]], v)
                    f["model discarded and loaded"] = f.get("model discarded and loaded", 0) + 1
                elif models[m] is None:
                    models[m] = core.load_model(ctx.entries[plan["E"][plan["M"][m][0]]], plan["M"][m][1])
                if st[2]:
                    Clock.advance(max(st[2], 0.0), min(st[2], 0.0))
                    simtime += max(st[2], 0.0)
                    f["clock jump"] = f.get("clock jump", 0) + 1
                p = payload(plan, ctx, m, req)
                if st[1] & 2 and type(p) is list:
                    b = buffers.setdefault((plan["M"][m][0], 0), [])
                    b[:] = p
                    p = b
                    f["request object refilled in place"] = f.get("request object refilled in place", 0) + 1
                if e["family"] == "func":  # the second operand is request data too
                    y = core.operand(e, plan["M"][m][1])
                    if st[1] & 2:
                        b = buffers.setdefault((plan["M"][m][0], 1), [])
                        b[:] = y
                        y = b
                    models[m].Y = y
                    y = b = None
                got = core.outcome(lambda: core.invoke(models[m], req, p))
                nc += 1
                if got[0] == "raise":
                    f["rejected request"] = f.get("rejected request", 0) + 1
                p = b = None
                core.sim_id.sweep()
                if got != gold[i]:
                    bad.append(violation("call %d of the history: %s: %s" % (nc, self.describe(plan, ctx, m, req), mismatch(got, gold[i])), sig="answer"))
                    return
        s, _ = one_thread(go, cap=80000000)
        if s.problem:
            bad.append(violation("history stuck: %s" % s.problem, sig="stuck"))
        if core.sim_id.reused:
            f["object identity reused"] = core.sim_id.reused
        r = result(bad[0] if bad else None, f, nc, simtime, core.digest(plan["E"], plan["reqs"], steps), nc >= 20)
        if bad and "log" not in plan:
            r["plan"] = dict(plan, log=steps[:nc])
        return r

    def shrink(self, plan):
        if "log" in plan:
            for lg in drop_each(plan["log"]):
                yield dict(plan, log=lg)
            if len(plan["log"]) < 30:
                for i, st in enumerate(plan["log"]):
                    for alt in ([st[0], 0, 0.0], [st[0], st[1], 0.0]):
                        if alt != st:
                            yield dict(plan, log=plan["log"][:i] + [alt] + plan["log"][i + 1:])


PROPS = {p.id: p for p in (C01, C02, C03, C04, C05, C09, C12)}

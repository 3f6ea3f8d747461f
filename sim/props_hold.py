"""
C16: a process that keeps converting, storing, loading and serving does not accumulate memory or work.

A run repeats one *round* of operations (only the records differ: some are new every time) and measures, between
rounds, what the process still holds.  What a bounded cache holds levels off; what is kept per request, per abort, per
model or per thread grows by the same amount in every round for ever.
"""
import array
import collections
import gc
import pickle
import sys
import types
import warnings

import core
from props import Prop, setup_run
from props_host import Service, ABORTS, C10
from runner import result, violation, drop_each
from sched import Sched, Counter, monitor

FIRST, LAST, MIDDLE, LONG = 3, 8, 20, 64     # rounds: first measurement, usual last one, and how long a suspicion is followed
WINDOW, TAIL = 6, 4              # growth in each of the last TAIL windows of WINDOW rounds is accumulation
ATOM = frozenset([int, float, bool, complex, type(None), type(Ellipsis), range, slice, types.CodeType, types.BuiltinFunctionType, types.ModuleType])
NOISE = 6                        # memory blocks a (threefold) round may add while pools of the interpreter fill up
OURS = ("core", "sched", "props", "props_host", "props_hold", "props_store", "props_train", "runner", "host", "zoo", "zookinds", "zoowords", "__main__", "trainer")


def owned(name):
    return isinstance(name, str) and name.split(".")[0] in ("pure_sklearn", "pure_fasttext")


def held(roots):
    """how much can be reached from the packages' modules and the models in use: elements, entries and characters"""
    seen, todo, total = set(), list(roots), 0
    for name, m in list(sys.modules.items()):
        if owned(name) and m is not None:
            todo.append(vars(m))
    while todo:
        o = todo.pop()
        t = type(o)
        if t in ATOM or id(o) in seen:
            continue
        seen.add(id(o))
        if t is str or t is bytes or t is bytearray:
            total += len(o)
            continue
        if t is types.FunctionType:
            if owned(o.__module__):
                todo += [o.__defaults__, o.__kwdefaults__, o.__closure__, o.__dict__]
            continue
        if isinstance(o, type):
            if owned(o.__module__):
                todo += [v for v in vars(o).values()]
            continue
        if t.__module__ in OURS:
            continue
        if isinstance(o, (list, dict, set, frozenset, tuple, collections.deque, array.array)):
            total += len(o)
        total += 1
        todo += gc.get_referents(o)
    return total


def census():
    return collections.Counter("%s.%s" % (type(o).__module__, type(o).__qualname__) for o in gc.get_objects())


def novel(rec, n, cat):
    """a record nobody has asked about before"""
    if isinstance(rec, str):
        return "%s nv%dq" % (rec, n) if " " in rec else "%snv%dq" % (rec, n)
    if isinstance(rec, dict):
        return dict(rec, **{"nv%dq" % n: 1})
    if isinstance(rec, list) and cat:
        return ["nv%dq" % n if isinstance(v, str) and k == n % len(rec) else v for k, v in enumerate(rec)]
    if isinstance(rec, list):
        return [v + n * 1e-7 if type(v) is float else v for v in rec]
    return rec


class C16(Prop):
    id = "C16"
    env = "trainer"
    wants_entries = False
    families = ("spec",)
    runs = (90, 1500)
    entries = (32, 64)
    boost = {"func": 0.01, "fasttext": 3}
    rule = ("a run = one process repeating a round of 3-14 operations (calls with known and with never seen records, rejected, aborted and overlapping calls, conversions finished or aborted, artifacts stored, "
            "loaded and discarded, sources converted and discarded) 8 times; between rounds the objects reachable from the library and the models in use, all memory blocks in use, the size of "
            "a stored model, the descriptors open and the work of a fixed call are measured. Growth is followed for 64 rounds; growing in each of the last 4 windows of 6 rounds is a violation. "
            "Non-trivial: at least 40 operations were executed.")
    components = C10.components

    def gen(self, rng, ctx):
        us = [i for i, e in enumerate(ctx.entries) if e["spec"]["kind"] not in ("func",)]
        ctx.turn = getattr(ctx, "turn", -1) + 1
        E = [us[ctx.turn % len(us)]]
        if rng.random() < 0.25:
            E.append(rng.choice(us))
        ops = []
        for _ in range(rng.randint(3, 14)):
            p, i = rng.randrange(len(E)), rng.randrange(1000)
            k = rng.choice(["call"] * 5 + ["bad"] * 2 + ["hit"] * 4 + ["par"] * 2 + ["conv", "conv", "swap", "swap", "source", "store"])
            op = [k, p, i]
            if k == "call":
                op += [rng.random() < 0.6, rng.choice([1, 1, 3, 8])]
            elif k == "hit":
                op += [round(rng.random(), 4), rng.choice(ABORTS)]
            elif k == "par":
                n = rng.choice([2, 2, 3])
                op += [[[t, round(rng.random(), 4), (t + 1) % n] for t in [rng.randrange(n) for _ in range(rng.randint(1, 4))]],
                       [[rng.randrange(n), round(rng.random(), 4), rng.choice(ABORTS)]] if rng.random() < 0.4 else [], n]
            elif k in ("conv", "source"):
                op += [round(rng.random(), 4) if rng.random() < 0.5 else None, rng.choice(ABORTS)]
            ops.append(op)
        return {"E": E, "ops": ops, "generation": rng.random() < 0.25, "rs": rng.randrange(1 << 30)}

    def calls(self, plan):
        return ()

    def prepare(self, plan, ctx):
        pass

    def execute(self, plan, ctx):
        setup_run(plan)
        core.sim_id.on = False
        warnings.simplefilter("ignore")
        svc = [Service(ctx.entries[e]["spec"], probes=8) for e in plan["E"]]
        live = [s.convert() for s in svc]
        blobs = [pickle.dumps(m, 4) for m in live]
        faults = {}
        lines = {}
        count = array.array("q", [0, 0])  # operations, records nobody has seen before
        problem = []

        def tally(k):
            faults[k] = faults.get(k, 0) + 1

        def ask(m, s, req, n=None):
            if n is None:
                return core.outcome(lambda: core.invoke(m, req, core.payload_of(s.e, req)))
            recs = [novel(r, n, s.e["family"] == "cat") for r in core.records_of(s.e, req)]
            return core.outcome(lambda: core.invoke(m, req, core.make_payload(s.e, recs, req["form"])))

        def length(key, fn):
            if key not in lines:
                c = Counter()
                core.outcome(lambda: c(fn))
                lines[key] = max(2, c.lines), c.ops
            return lines[key][0]

        def simulate(fns, sw, ab, faulty):
            sc = Sched([lambda f=f: core.outcome(f) and None for f in fns], switch=sw, abort=ab, cap=30000000)
            sc.run()
            for f in sc.fired:
                tally("abort:" + f[2])
            if sc.trace:
                faults["preemption"] = faults.get("preemption", 0) + len(sc.trace)
            if sc.problem:
                problem.append("%s: %s" % (faulty, sc.problem))

        def one(op):
            k, p, i = op[:3]
            s = svc[p]
            req = s.probes[i % len(s.probes)]

            def fn():
                core.invoke(live[p], req, core.payload_of(s.e, req))
            if k == "call":
                for _ in range(op[4]):
                    count[0] += 1
                    if op[3]:
                        count[1] += 1
                        ask(live[p], s, req, count[1])
                    else:
                        ask(live[p], s, req)
                if op[3]:
                    faults["record never seen before"] = faults.get("record never seen before", 0) + op[4]
                return
            count[0] += 1
            if k == "bad":
                if s.e["bad"]:
                    tally("rejected request")
                    ask(live[p], s, {"m": s.e["methods"][i % len(s.e["methods"])], "bad": i % len(s.e["bad"])})
            elif k == "hit":
                n = length((p, i % len(s.probes)), fn)
                simulate([fn], [], [[0, 1 + int(op[3] * (n - 1)), op[4]]], "an aborted call")
            elif k == "par":
                n = length((p, i % len(s.probes)), fn)
                simulate([fn] * op[5], [[t, 1 + int(f * (n - 1)), to] for t, f, to in op[3]], [[t, 1 + int(f * (n - 1)), x] for t, f, x in op[4]], "overlapping calls")
            elif k in ("conv", "source"):
                src = s.source_copy() if k == "source" else s.b.est
                got = []

                def conv():
                    got.append(s.conv(src))
                if op[3] is None:
                    core.outcome(conv)
                    if got:
                        ask(got[0], s, req)
                else:
                    n = length((p, k), conv)
                    simulate([conv], [], [[0, 1 + int(op[3] * (n - 1)), op[4]]], "an aborted conversion")
                tally("source converted and discarded" if k == "source" else "conversion discarded")
            elif k == "swap":
                m = pickle.loads(blobs[p])
                ask(m, s, req)
                tally("model loaded, used and discarded")
            elif k == "store":
                pickle.dumps(live[p], i % 6)

        def cost(op):
            k, p, i = op[:3]
            s = svc[p]
            if k in ("conv", "source"):
                length((p, k), lambda: s.conv(s.b.est))
                return 2 * lines[p, k][1] + max(v[1] for q, v in lines.items() if q[0] == p)
            req = s.probes[i % len(s.probes)]
            length((p, i % len(s.probes)), lambda: core.invoke(live[p], req, core.payload_of(s.e, req)))
            return {"call": op[4] if k == "call" else 0, "hit": 3, "par": 8, "bad": 0.2, "swap": 2, "store": 0.5}[k] * lines[p, i % len(s.probes)][1]

        for p, s in enumerate(svc):  # repeated a thousand times: only what is cheap enough for that
            for i, req in enumerate(s.probes):
                length((p, i), lambda: core.invoke(live[p], req, core.payload_of(s.e, req)))
            cheap = [i for i in range(len(s.probes)) if lines[p, i][1] <= 60000]
            if not cheap:
                return result(None, faults, 0, 0.0, core.digest(plan), False)
            s.probes = [s.probes[i] for i in cheap]
            for j, i in enumerate(cheap):
                lines[p, j] = lines[p, i]
            for j in range(len(cheap), 8):
                lines.pop((p, j), None)

        ops, room = [], 250000  # bytecodes executed in one round: a suspicion is followed for up to 160 of them
        for op in plan["ops"]:
            room -= cost(op)
            if room > 0 or not ops:
                ops.append(op)

        def rnd():
            for op in ops:
                if op[0] not in ("hit", "par"):
                    monitor("off")
                one(op)
                if problem:
                    return
            if plan["generation"]:
                for p in range(len(live)):
                    live[p] = pickle.loads(pickle.dumps(live[p], 4))
                tally("next store and load generation")

        def work(p):
            c = Counter()
            s = svc[p]
            req = s.probes[0]
            payload = core.payload_of(s.e, req)
            core.outcome(lambda: c(lambda: core.invoke(live[p], req, payload)))
            return c.lines

        NAMES = ["memory blocks in use", "objects held by the library and its models", "size of the stored model", "open descriptors", "work of one and the same call"]
        table = [array.array("q", [0] * (LONG + 1)) for _ in NAMES]

        def measure(r):
            import os
            monitor("off")
            gc.collect()
            gc.collect()
            table[0][r] = sys.getallocatedblocks()
            table[1][r] = held(live)
            table[2][r] = sum(len(pickle.dumps(m, 4)) for m in live)
            table[3][r] = len(os.listdir("/proc/self/fd"))
            table[4][r] = sum(work(p) for p in range(len(live)))

        # native fasttext itself leaks the lists of words it hands to a conversion: then only what the library holds is judged
        leaky = any(op[0] in ("conv", "source") and svc[op[1]].e["family"] == "ft" for op in ops)
        gc.collect()
        gc.freeze()
        first = last = None
        viol = None
        r, end, since = 0, LAST, FIRST
        while r < end and not problem:
            r += 1
            for _ in range(3 if end == LONG else 1):
                rnd()
            if r in (1, FIRST, LAST) or end > LAST:
                measure(r)
            if r in (LAST, MIDDLE) and end < LONG:
                sus = [n for n, t in zip(NAMES, table) if t[r] > t[since] + (NOISE * (r - since) // 3 if t is table[0] else 0) and not (leaky and t is table[0])]
                if not sus:
                    break
                if sus == NAMES[:1] and r == LAST:  # the interpreter's own pools fill up slowly and then stay full
                    end, since = MIDDLE, (LAST + MIDDLE) // 2
                    for b in blobs:
                        for _ in range(250):
                            pickle.loads(b)
                    for _ in range(10):
                        rnd()
                else:
                    end = LONG
                    tally("growth followed: " + sus[0])
            if end == LONG and r == LONG - WINDOW * TAIL:
                first = census()
        if problem:
            viol = violation("%s" % problem[0], sig="stuck")
        elif end == LONG:
            for name, t in zip(NAMES, table):
                if leaky and t is table[0]:
                    continue
                w = [t[r] - t[r - WINDOW] for r in range(LONG - WINDOW * (TAIL - 1), LONG + 1, WINDOW)]
                if min(w) >= (max(NOISE * WINDOW, 0.7 * max(w)) if t is table[0] else 1):
                    last = census()
                    last.subtract(first)
                    more = ", ".join("%d more %s" % (n, k) for k, n in last.most_common(3) if n > 3)
                    viol = violation("%s: %s grow without end: %d after %d rounds, %d after %d, %d after %d%s; a round is %s" % (
                        " and ".join(s.name() for s in svc), name, t[LAST], LAST, t[LONG // 2], LONG // 2, t[LONG], LONG, " (%s)" % more if more else "",
                        "; ".join(self.say(op) for op in ops)[:400]), sig="grow:" + name)
                    break
        return result(viol, faults, int(count[0]), 0.0, core.digest(plan, [list(t) for t in table[1:]]), count[0] >= 40)

    @staticmethod
    def say(op):
        k = op[0]
        if k == "call":
            return "%d calls%s" % (op[4], " with records never seen" if op[3] else "")
        return {"bad": "a rejected request", "hit": "a call aborted by %s" % op[-1], "par": "overlapping calls", "conv": "a conversion%s" % (" aborted" if op[3:4] and op[3] is not None else ""), "swap": "a model loaded and discarded",
                "source": "another source converted%s and discarded" % (" (aborted)" if op[3:4] and op[3] is not None else ""), "store": "a model stored"}[k]

    def shrink(self, plan):
        for ops in drop_each(plan["ops"]):
            if ops:
                yield dict(plan, ops=ops)
        for i, op in enumerate(plan["ops"]):
            if op[0] == "call" and op[4] > 1:
                yield dict(plan, ops=plan["ops"][:i] + [op[:4] + [1]] + plan["ops"][i + 1:])
            if op[0] == "call" and op[3]:
                yield dict(plan, ops=plan["ops"][:i] + [op[:3] + [False] + op[4:]] + plan["ops"][i + 1:])
        if plan["generation"]:
            yield dict(plan, generation=False)


PROPS = {"C16": C16}

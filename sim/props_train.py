"""
Simulations that involve the training side: C11 and C13 (deployments: trainer, storage, servers,
clients), C10 (conversion), C14 (profiling helper), C15 (process-wide state).
"""
import heapq
import pickle
import random

import core
from core import close, short
from props import Prop, setup_run
from props_host import C10, C14, C15
from runner import result, violation, drop_each
from zookinds import WEIGHTS
from sched import Sched, SimStop, Clock, gen_switches

TOL = {"f64": (1e-6, 1e-9), "f32": (1e-4, 1e-5), "ft": (1e-3, 2e-4)}


# ---------------------------------------------------------------- comparing with native answers
def val_equal(a, b, tol):
    if isinstance(b, bool) or isinstance(a, bool):
        return a == b
    if isinstance(b, (int, float)):
        return isinstance(a, (int, float)) and close(float(a), float(b), *TOL[tol])
    return type(a) is type(b) and a == b


def row_equal(got, nat, tol):
    """one record's answer of the converted model against the native one"""
    if isinstance(nat, list):
        if isinstance(got, dict):
            if any(not isinstance(j, int) or not 0 <= j < len(nat) for j in got):
                return False
            return all(val_equal(got.get(j, 0), x, tol) for j, x in enumerate(nat))
        return isinstance(got, (list, tuple)) and len(got) == len(nat) and all(val_equal(a, b, tol) for a, b in zip(got, nat))
    return val_equal(got, nat, tol)


def ft_equal(got, nat, thr):
    """(labels, probabilities): order and membership may differ where probabilities tie or touch the threshold"""
    try:
        gl, gp = list(got[0]), list(got[1])
    except Exception:
        return False
    nl, np_ = nat
    if len(gl) != len(gp):
        return False
    rt, at = TOL["ft"]
    g, n = dict(zip(gl, gp)), dict(zip(nl, np_))
    if len(g) != len(gl):
        return False
    if any(gp[i] + 2 * at < gp[i + 1] for i in range(len(gp) - 1)):
        return False
    for l in set(g) & set(n):
        if not close(g[l], n[l], rt, at):
            return False
    low_n = min(np_) if np_ else None
    low_g = min(gp) if gp else None
    for l in set(g) ^ set(n):  # only at the threshold, or tied for the last place
        p = g.get(l, n.get(l))
        edge = abs(p - thr) <= 2 * at
        tied = low_n is not None and low_g is not None and len(g) == len(n) and abs(p - low_n) <= 2 * at and abs(p - low_g) <= 2 * at
        if not (edge or tied):
            return False
    return True


def compare(e, ver, req, out):
    """None, or (record position, got, expected)"""
    nat, m = ver["native"], req["m"]
    if m == "predict" and e["family"] == "ft":
        rows = nat["predict:%s:%s" % (req["k"], req["thr"])]
        if req["form"] == "one":
            got = [out]
        else:
            try:
                got = list(zip(out[0], out[1]))
                if len(out[0]) != len(out[1]):
                    return (0, out, "as many label lists as probability lists")
            except Exception:
                return (0, out, "a pair of lists")
    else:
        rows = nat[m]
        got = [out] if req["form"] == "one" else out
    if not isinstance(got, (list, tuple)) or len(got) != len(req["idx"]):
        return (0, got, "%d rows" % len(req["idx"]))
    for i, (g, x) in enumerate(zip(got, req["idx"])):
        if e["family"] == "ft" and m == "predict":
            ok = ft_equal(g, rows[x], req["thr"])
        elif m == "predict" and nat.get("__ambiguous__") and nat["__ambiguous__"][x]:
            ok = True
        else:
            ok = row_equal(g, rows[x], "ft" if e["family"] == "ft" else e["tol"])
        if not ok:
            return (i, g, rows[x])
    return None


# ---------------------------------------------------------------- the deployment
class Storage:
    """object storage: key -> generations in order of arrival; a generation may be torn"""

    def __init__(self, n):
        self.gens = [[] for _ in range(n)]

    def arrive(self, p, v, data, torn):
        self.gens[p].append((v, data, torn))


class Server:
    def __init__(self, sid, n):
        self.sid, self.up, self.models, self.queue, self.swap, self.timer = sid, False, [None] * n, [], [], False
        self.boots = 0


class Deploy:
    """one run: discrete events over virtual time, calls inside a dispatch are simulated threads"""

    def __init__(self, plan, entries):
        self.plan, self.entries = plan, entries
        self.now, self.seq, self.q = 0.0, 0, []
        self.store = Storage(len(plan["E"]))
        self.srv = [Server(i, len(plan["E"])) for i in range(plan["ns"])]
        self.faults, self.calls, self.viol, self.log, self.fired = {}, 0, None, [], []
        self.pending, self.done, self.dispatches = {}, {}, 0
        self.healed = False
        self.latest = {}
        self.versions_served = set()

    def e(self, p):
        return self.entries[self.plan["E"][p]]

    def note(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def bad(self, what, sig):
        if self.viol is None:
            self.viol = violation("t=%.3f %s" % (self.now, what), sig=sig)

    def at(self, t, fn, *a):
        self.seq += 1
        heapq.heappush(self.q, (t, self.seq, fn, a))

    def name(self, p, v):
        e = self.e(p)
        return "%s [%s seed %s v%s]" % (e["desc"][:220], e["spec"]["kind"], e["spec"]["seed"], v)

    # trainer
    def publish(self, p, v, fate):
        ver = self.e(p)["versions"][v]
        if "error" in ver:
            if "odd" in self.e(p):
                self.note("unsupported model refused")
                return
            self.bad("%s: %s refused it: %s" % (self.name(p, v), {"convert": "conversion", "store": "storing the converted model"}.get(ver.get("stage"), "conversion"), ver["error"]), "refused")
            return
        self.latest[p] = v
        b = ver["blob"]
        if fate[0] == "lost":
            self.note("lost upload")
        elif fate[0] == "torn":
            self.note("torn upload")
            self.at(self.now + fate[2], self.store.arrive, p, v, b[:min(int(len(b) * fate[1]), len(b) - 1)], True)
        elif fate[0] == "dup":
            self.note("duplicate upload")
            self.at(self.now + fate[1], self.store.arrive, p, v, b, False)
            self.at(self.now + fate[2], self.store.arrive, p, v, b, False)
        else:
            if fate[1] > 0.5:
                self.note("delayed upload")
            self.at(self.now + fate[1], self.store.arrive, p, v, b, False)

    # servers
    def read(self, s, p, mode, fate):
        """the bytes a server gets when it asks storage for its artifact: [(version, bytes, torn)] newest first"""
        g = self.store.gens[p][::-1]
        if mode == "rollback" and len(g) > 1:
            self.note("rollback")
            g = g[1:]
        if fate[0] == "down":
            self.note("storage unavailable")
            return []
        if fate[0] == "short" and g:
            self.note("short download")
            v, b, torn = g[0]
            g = [(v, b[:min(int(len(b) * fate[1]), len(b) - 1)], True)]
        return g

    def loads(self, p, g):
        for v, b, torn in g:
            try:
                m = pickle.loads(b)
            except Exception as ex:
                if torn:
                    self.note("torn artifact refused")
                    continue
                self.bad("%s: an intact artifact cannot be loaded: %s: %s" % (self.name(p, v), type(ex).__name__, str(ex)[:200]), "load")
                return None
            if torn:
                self.bad("%s: a torn artifact (%d bytes) was loaded as %s" % (self.name(p, v), len(b), type(m).__name__), "torn")
                return None
            return (v, m)
        return None

    def poll(self, s, p, mode, fate, live=False):
        s = self.srv[s]
        if not s.up:
            return
        g = self.read(s, p, mode, fate)
        if live and s.queue:
            s.swap.append((p, g))  # hot swap: loaded by a thread of the next dispatch
            return
        r = self.loads(p, g)
        if r is not None:
            s.models[p] = r

    def boot(self, s):
        s = self.srv[s]
        if s.up:
            return
        s.up, s.models, s.queue, s.swap, s.timer = True, [None] * len(self.plan["E"]), [], [], False
        s.boots += 1
        for p in range(len(self.plan["E"])):
            self.poll(s.sid, p, "latest", ["ok"])

    def crash(self, s, down):
        s = self.srv[s]
        if s.up:
            self.note("server crash")
            s.up = False
            if s.queue:
                self.note("requests lost in a crash", len(s.queue))
            s.queue, s.swap = [], []
            self.at(self.now + down, self.boot, s.sid)

    # clients
    def send(self, rid, attempt):
        if rid not in self.pending:
            return
        _, t, s, p, req, net, ab = self.pending[rid]
        first = attempt == 0
        to = (s + attempt) % len(self.srv)
        if attempt:
            self.note("client retry")
        if first and net.get("lost"):
            self.note("lost request")
        else:
            d = net["d"] if first else 0.01
            self.at(self.now + d, self.deliver, to, rid, ab if first else None)
            if first and net.get("dup"):
                self.note("duplicate request")
                self.at(self.now + net["dup"], self.deliver, to, rid, None)
        self.at(self.now + 1.0 + 0.25 * attempt, self.send, rid, attempt + 1)

    def deliver(self, s, rid, ab):
        s = self.srv[s]
        if not s.up:
            self.note("request to a crashed server")
            return
        s.queue.append((rid, ab))
        if not s.timer:
            s.timer = True
            self.at(self.now + self.plan["win"], self.dispatch, s.sid, s.boots)

    def dispatch(self, sid, boot):
        s = self.srv[sid]
        if not s.up or s.boots != boot:
            return
        s.timer = False
        groups = {}
        for n, (rid, ab) in enumerate(s.queue):
            _, _, _, p, req, _, _ = self.reqs[rid]
            if s.models[p] is None:
                continue
            key = (p, req["m"], req.get("form"), req.get("k"), req.get("thr"), req.get("bad"), n if req["form"] == "one" else None)
            groups.setdefault(key, []).append((rid, ab))
        s.queue = []
        work, swaps = list(groups.items()), s.swap
        s.swap = []
        if not work and not swaps:
            return
        if len(work) > 4:  # the rest waits for the next round
            for key, items in work[4:]:
                s.queue.extend(items)
            work = work[:4]
            s.timer = True
            self.at(self.now + self.plan["win"] + 0.001, self.dispatch, s.sid, boot)
        self.dispatches += 1
        outs = [None] * len(work)
        loaded = [None] * len(swaps)

        def call(i):
            def run():
                (p, m, form, k, thr, badi, _), items = work[i]
                v, model = s.models[p]
                req = {"m": m, "form": form, "idx": [x for rid, _ in items for x in self.reqs[rid][4]["idx"]]}
                if k is not None:
                    req["k"], req["thr"] = k, thr
                box = []
                payload = core.payload_of(self.e(p), req)
                try:
                    box.append(core.invoke(model, req, payload))
                    outs[i] = (v, req, "ok", core.plain(box[0]))
                except SimStop:
                    raise
                except BaseException as ex:
                    outs[i] = (v, req, "raise", "%s: %s" % (type(ex).__name__, str(ex)[:150]))
            return run

        def swap(i):
            def run():
                loaded[i] = self.loads(*swaps[i])
            return run
        fns = [call(i) for i in range(len(work))] + [swap(i) for i in range(len(swaps))]
        if swaps:
            self.note("hot swap during calls", len(swaps))
        rng = random.Random("%s:%s" % (self.plan["rs"], self.dispatches))
        sw = []
        if len(fns) > 1:
            for _ in range(self.plan["pre"]):
                sw.append([rng.randrange(len(fns)), rng.randint(1, 120), rng.randrange(len(fns))])
        aborts = [[i, ab[0], ab[1]] for i, (_, items) in enumerate(work) for _, ab in items if ab and not self.healed]
        sc = Sched(fns, switch=sw, abort=aborts, cap=8000000)
        sc.run()
        if sc.trace:
            self.note("preemption", len(sc.trace))
        for f in sc.fired:
            self.note("abort:" + f[2])
            self.fired.append([round(self.now, 4)] + f)
        self.log.append((sid, round(self.now, 4), [x[0] for x in work], sc.trace))
        if sc.problem:
            self.bad("dispatch on server %d: %s" % (sid, sc.problem), "stuck")
            return
        for i, r in enumerate(loaded):
            if r is not None:
                s.models[swaps[i][0]] = r
        for i, ((p, m, *_), items) in enumerate(work):
            v, req, kind, val = outs[i]
            self.calls += 1
            hit = any(f[0] == i for f in sc.fired)
            self.versions_served.add((p, v))
            ver = self.e(p)["versions"][v]
            if kind == "raise":
                if "odd" in self.e(p) and not hit:
                    self.note("unsupported model refused to answer")
                    for rid, _ in items:
                        self.pending.pop(rid, None)
                elif not hit:
                    self.bad("%s %s: raised %s; the native model answers" % (self.name(p, v), core.req_key(req), val), "raise")
                continue
            c = compare(self.e(p), ver, req, val)
            if c is not None:
                rec = core.domain(self.e(p), req["m"])[req["idx"][c[0]]] if c[0] < len(req["idx"]) else None
                self.bad("%s %s%s: record %s (%s): answered %s, the native version it was converted from answers %s" % (
                    self.name(p, v), req["m"], "(k=%s, threshold=%s)" % (req["k"], req["thr"]) if "k" in req else "", c[0], short(rec, 200), short(c[1], 200), short(c[2], 200)),
                    "answer:" + req["m"])
                continue
            for rid, _ in items:
                self.pending.pop(rid, None)
                self.done[rid] = self.done.get(rid, 0) + 1

    def run(self):
        self.reqs = {}
        end = 0.0
        for i, ev in enumerate(self.plan["ev"]):
            t = ev[1]
            end = max(end, t)
            if ev[0] == "pub":
                self.at(t, self.publish, ev[2], ev[3], ev[4])
            elif ev[0] == "poll":
                self.at(t, self.poll, ev[2], ev[3], ev[4], ev[5], ev[6])
            elif ev[0] == "crash":
                self.at(t, self.crash, ev[2], ev[3])
            elif ev[0] == "req":
                self.reqs[i] = ev
                self.at(t, self.open, i)
        for s in self.srv:
            self.at(0.0, self.boot, s.sid)
        self.pump(end + 3.0)
        if self.viol:
            return
        # faults stop: the trainer uploads its latest snapshots again, servers come up and poll
        self.healed = True
        for p, v in sorted(self.latest.items()):
            self.publish(p, v, ["ok", 0.1])
        self.pump(self.now + 1.0)
        for s in self.srv:
            if s.up:
                for p in range(len(self.plan["E"])):
                    self.poll(s.sid, p, "latest", ["ok"])
            else:
                self.boot(s.sid)
        deadline = self.now + 30.0
        while self.pending and self.now < deadline and not self.viol:
            if not self.pump(self.now + 1.0) and not self.q:
                break
        if self.viol:
            return
        left = [i for i in self.pending if self.plan["ev"][i][3] in self.latest]
        if left:
            self.bad("%d requests still unanswered 30 simulated seconds after the last fault, e.g. %s" % (len(left), core.req_key(self.reqs[left[0]][4])), "liveness")
        for s in self.srv:
            for p, v in self.latest.items():
                if s.models[p] is None or s.models[p][0] != v:
                    self.bad("server %d does not serve the latest snapshot after recovery: %s" % (s.sid, self.name(p, v)), "stale")

    def open(self, i):
        self.pending[i] = self.reqs[i]
        self.send(i, 0)

    def pump(self, until):
        n = 0
        while self.q and self.q[0][0] <= until and self.viol is None:
            t, _, fn, a = heapq.heappop(self.q)
            dt = max(0.0, t - self.now)
            self.now += dt
            Clock.advance(dt)
            fn(*a)
            n += 1
        if self.viol is None and until > self.now:
            Clock.advance(until - self.now)
            self.now = until
        return n


class C11(Prop):
    id = "C11"
    native = True
    families = ("num", "docs", "cat", "dicts")
    kinds = tuple(k for k in WEIGHTS if k not in ("func", "fasttext", "ftodd", "filevec"))
    runs = (500, 5000)
    entries = (90, 160)
    pool = 36
    boost = {"xgb": 2, "gb": 1.4, "bagging": 1.4, "odd": 6}
    rule = ("a run = a deployment over virtual time: a trainer publishes snapshots of 1-2 models as it retrains them, storage delays, loses, tears or duplicates uploads, 1-3 servers load, "
            "hot-swap, roll back, crash and restart, clients send, retry and duplicate requests that servers coalesce into batches; calls of one dispatch are interleaved and some aborted. "
            "Every answer is compared with the native answers of the version it was served from. Non-trivial: answers were given and at least one fault happened.")
    components = {"real": Prop.components["real"] + ["native scikit-learn / xgboost / fasttext models (reference answers)", "pickle as artifact format"],
                  "simulated": ["trainer schedule, storage, network, servers' process lifecycle, clients", "thread scheduler", "clocks", "random seeds"]}

    def gen(self, rng, ctx):
        us = [i for i, e in enumerate(ctx.entries) if not e.get("error") and e["family"] in self.families and all("native" in v for v in e["versions"]) and e["methods"]]
        # every service is deployed in turn; refusals are violations, so they are not filtered out
        ctx.turn = getattr(ctx, "turn", -1) + 1
        E = [us[ctx.turn % len(us)]]
        if rng.random() < 0.25:
            E.append(rng.choice(us))
        ns = rng.choice([1, 1, 2, 3])
        T = rng.choice([4.0, 8.0, 15.0])
        calm = rng.random() < 0.12
        ev = []
        for p, e in enumerate(E):
            nv = len(ctx.entries[e]["versions"])
            order = list(range(nv)) + [rng.randrange(nv) for _ in range(rng.choice([0, 0, 1]))]
            t = 0.0
            for v in order:
                x = rng.random()
                fate = ["ok", round(rng.choice([0.01, 0.05, 0.3, 2.0]), 3)]
                if v and not calm and x < 0.5:
                    fate = ["torn", round(rng.choice([rng.random(), 0.0, 0.999]), 4), 0.1] if x < 0.2 else ["lost"] if x < 0.3 else ["dup", 0.05, round(rng.uniform(0.1, T / 2), 3)]
                ev.append(["pub", round(t, 3), p, v, fate])
                t += rng.uniform(0.3, T / (nv + 1))
        for s in range(ns):
            for p in range(len(E)):
                t = rng.uniform(0.05, 0.4)
                while t < T:
                    x = rng.random()
                    fate = ["ok"]
                    if not calm and x < 0.2:
                        fate = ["short", round(rng.random(), 4)] if x < 0.12 else ["down"]
                    ev.append(["poll", round(t, 3), s, p, "rollback" if not calm and rng.random() < 0.12 else "latest", fate, rng.random() < 0.5])
                    t += rng.uniform(0.3, T / 2)
            if not calm and rng.random() < 0.5:
                ev.append(["crash", round(rng.uniform(0.2, T), 3), s, round(rng.uniform(0.2, 2.0), 3)])
        win = rng.choice([0.0, 0.02, 0.1, 0.4])
        bursts = [rng.uniform(0.3, T) for _ in range(rng.choice([2, 4, 6]))]
        for _ in range(rng.randint(6, 22)):
            p = rng.randrange(len(E))
            e = ctx.entries[E[p]]
            req = core.gen_request(rng, e, maxn=5)
            t = max(0.0, rng.choice(bursts) + rng.uniform(0, 0.1)) if rng.random() < 0.7 else rng.uniform(0.1, T)
            net = {"d": round(rng.choice([0.001, 0.01, 0.05, 0.3]), 3)}
            if not calm and rng.random() < 0.1:
                net["lost"] = True
            if not calm and rng.random() < 0.12:
                net["dup"] = round(rng.uniform(0.01, 1.5), 3)
            ab = [rng.choice([rng.randint(1, 12), rng.randint(1, 150)]), rng.choice(["deadline", "deadline", "interrupt", "nomem"])] if not calm and rng.random() < 0.08 else None
            ev.append(["req", round(t, 3), rng.randrange(ns), p, req, net, ab])
        ev.sort(key=lambda x: x[1])
        return {"E": E, "M": [], "ns": ns, "win": win, "pre": rng.choice([0, 2, 6]), "ev": ev, "rs": rng.randrange(1 << 30)}

    def calls(self, plan):
        return ()

    def prepare(self, plan, ctx):
        pass

    def execute(self, plan, ctx):
        setup_run(plan)
        d = Deploy(plan, ctx.entries)
        d.run()
        return result(d.viol, d.faults, d.calls, d.now, core.digest(plan["E"], plan["ev"], d.log, d.fired), bool(d.faults) and d.calls > 0, fired=d.fired,
                      extra={"versions": len(d.versions_served)})

    def shrink(self, plan):
        for evs in drop_each(plan["ev"]):
            yield dict(plan, ev=evs)
        if plan["ns"] > 1:
            yield dict(plan, ns=1, ev=[e if e[0] == "pub" else e[:2] + [0] + e[3:] for e in plan["ev"]])
        if plan["pre"]:
            yield dict(plan, pre=0)
        for i, ev in enumerate(plan["ev"]):
            def put(x):
                return dict(plan, ev=plan["ev"][:i] + [x] + plan["ev"][i + 1:])
            if ev[0] == "req":
                if ev[6]:
                    yield put(ev[:6] + [None])
                if len(ev[5]) > 1 or ev[5]["d"] != 0.001:
                    yield put(ev[:5] + [{"d": 0.001}, ev[6]])
                for idx in drop_each(ev[4]["idx"]):
                    if idx:
                        yield put(ev[:4] + [dict(ev[4], idx=idx)] + ev[5:])
            elif ev[0] == "pub" and ev[4] != ["ok", 0.01]:
                yield put(ev[:4] + [["ok", 0.01]])
            elif ev[0] == "poll" and (ev[4] != "latest" or ev[5] != ["ok"] or ev[6]):
                yield put(ev[:4] + ["latest", ["ok"], False])


class C13(C11):
    id = "C13"
    families = ("ft",)
    kinds = ("fasttext", "ftodd")
    entries = (32, 50)
    runs = (420, 5000)
    boost = {"fasttext": 3, "ftodd": 3}


PROPS = {p.id: p for p in (C10, C11, C13, C14, C15)}

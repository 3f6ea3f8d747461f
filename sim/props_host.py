"""
Simulations that run inside the training process: C10 (conversion is a snapshot and leaves its
source alone), C14 (profiling helper under hostile clocks), C15 (process-wide state).
"""
import atexit
import decimal
import builtins
import faulthandler
import gc
import io
import json
import locale
import logging
import os
import pickle
import random
import re
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import types
import warnings

import core
from core import canon, short, HOWS, scribble
from props import Prop, setup_run
from runner import result, violation, drop_each
from sched import Sched, SimStop, Clock, Counter, EXC, _write_sites

ABORTS = ["deadline", "interrupt", "nomem"]


def outcome_of(model, e, req):
    """canonical answer of one call on a fresh payload"""
    return core.outcome(lambda: core.invoke(model, req, core.payload_of(e, req)))


def aside(b):
    """what else a source answers when asked, besides its predictions"""
    import numpy as np
    import zoo
    out = {}

    def ask(name, fn):
        try:
            r = fn()
        except Exception as ex:
            r = type(ex).__name__
        if hasattr(r, "todense"):
            r = np.asarray(r.todense())
        if isinstance(r, np.ndarray):
            r = r.tolist()
        out[name] = core.digest(repr(r))
    if b.family == "ft":
        m = b.est[0]
        for n in ("get_words", "get_labels", "get_dimension", "is_quantized"):
            ask(n, getattr(m, n))
        return out
    e = b.est
    if not hasattr(e, "get_params"):
        return out
    ask("get_params", lambda: sorted((k, repr(v)) for k, v in e.get_params().items() if not hasattr(v, "get_params") and not isinstance(v, list)))
    for n in ("get_feature_names", "get_stop_words"):
        if hasattr(e, n):
            ask(n, getattr(e, n))
    for n in ("classes_", "n_features_", "feature_importances_", "n_outputs_", "named_steps", "oob_score_"):
        if n in vars(e) or n == "feature_importances_" and hasattr(type(e), n) and n not in ("coef_",):
            ask(n, lambda n=n: getattr(e, n))
    if hasattr(e, "inverse_transform") and "transform" in b.methods:
        ask("inverse_transform", lambda: e.inverse_transform(e.transform(zoo.native_input(b, b.pool))))
    if hasattr(e, "apply"):
        ask("apply", lambda: e.apply(zoo.native_input(b, b.pool)))
    if hasattr(e, "staged_predict_proba"):
        ask("staged_predict_proba", lambda: [np.asarray(p).tolist() for p in e.staged_predict_proba(zoo.native_input(b, b.pool))])
    return out


class Service:
    """a native model under training in this process, built from its spec"""

    def __init__(self, spec, probes=6):
        import zoo
        self.spec = spec
        self.b = zoo.build(spec)
        self.v = -1
        self.train()
        b = self.b
        if b.family not in ("func", "ft"):
            b.methods = [m for m in b.methods if hasattr(b.est, m)]
        self.e = {"spec": spec, "family": b.family, "pool": b.pool, "bad": b.bad, "methods": b.methods, "forms": b.forms, "d": b.d, "tol": b.tol,
                  "desc": zoo.describe(b)}
        if b.family == "ft":
            self.e["words"], self.e["kws"] = b.words, b.kws
        self.e.update(getattr(b, "extra", {}))
        self.probes = [p for p in zoo.make_probes(self.e, probes) if "bad" not in p]
        self.conv = zoo.converter(b)
        self.edited = False

    def name(self):
        return "%s [%s seed %s v%s]" % (self.e["desc"][:220], self.spec["kind"], self.spec["seed"], self.v)

    def train(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.v += 1
            self._train(self.b, self.v)

    def _train(self, b, v):
        import numpy as np
        np.random.seed((self.spec["seed"] + v) % (2 ** 32))
        random.seed(self.spec["seed"] + v)
        b.train(v % b.nversions)

    def untouched(self):
        """what the same training gives where nothing was ever converted"""
        import zoo
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b = zoo.build(self.spec)
            for v in range(self.v + 1):
                self._train(b, v)
            b.methods = list(self.b.methods)
            return canon(zoo.native_answers(b))

    def convert(self):
        return self.conv(self.b.est)

    def native(self):
        import zoo
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return canon(zoo.native_answers(self.b)), aside(self.b)

    def source_copy(self):
        """the source as it is now, as an independent object"""
        if self.b.family == "ft":
            return self.b.est
        return pickle.loads(pickle.dumps(self.b.est))

    def answers(self, model):
        return [outcome_of(model, self.e, p) for p in self.probes]


# ---------------------------------------------------------------- walking object graphs
SKIP = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, type, str, bytes, int, float, bool, type(None), re.Pattern)


def places(root, limit=3000):
    """[(path, object)] of everything that can be edited in place below root"""
    import numpy as np
    out, seen, todo = [], set(), [("", root)]
    while todo and len(out) < limit:
        path, x = todo.pop()
        if isinstance(x, SKIP) or id(x) in seen or isinstance(x, (np.random.RandomState, np.dtype, np.generic)):
            continue
        seen.add(id(x))
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                for i, v in enumerate(x.ravel().tolist()[:200]):
                    todo.append(("%s[%d]" % (path, i), v))
            if x.size and x.flags.writeable:
                out.append((path, x))
        elif isinstance(x, dict):
            out.append((path, x))
            for k, v in list(x.items())[:300]:
                todo.append(("%s[%r]" % (path, k), v))
        elif isinstance(x, list):
            out.append((path, x))
            for i, v in enumerate(x[:300]):
                todo.append(("%s[%d]" % (path, i), v))
        elif isinstance(x, (tuple, set, frozenset)):
            if isinstance(x, set):
                out.append((path, x))
            for i, v in enumerate(x):
                todo.append(("%s(%d)" % (path, i), v))
        else:
            d = getattr(x, "__dict__", None)
            if d is not None:
                for k, v in list(d.items()):
                    todo.append(("%s.%s" % (path, k), v))
            if type(x).__name__ == "Tree":  # compiled decision tree: arrays are views of its memory
                for k in ("value", "threshold", "children_left", "children_right", "feature"):
                    todo.append(("%s.%s" % (path, k), getattr(x, k)))
    out.sort(key=lambda p: p[0])
    return out


def edit(x, how):
    import numpy as np
    if isinstance(x, np.ndarray):
        try:
            if x.dtype.kind == "b":
                x[...] = ~x
            elif x.dtype.kind in "iuf":
                if how in ("clear", "pop"):
                    x[...] = 0
                elif how == "reverse":
                    x[...] = x[::-1].copy()
                else:
                    x[...] = x * 3 + 1
            elif x.dtype.kind in "US":
                x[...] = "q"
            else:
                x.ravel()[0] = "q"
                x[...] = x[::-1].copy()
        except (TypeError, ValueError):
            pass
    elif isinstance(x, set):
        x.clear() if how == "clear" else x.add("good")
    else:
        scribble(x, how)


# ---------------------------------------------------------------- C10
class C10(Prop):
    id = "C10"
    env = "trainer"
    wants_entries = False
    families = ("spec",)
    runs = (200, 3000)
    entries = (32, 64)
    boost = {"func": 0.01, "pipe_text": 1.5, "pipe_cat": 1.5}
    rule = ("a run = a training process with 1-2 native models that are fitted, refitted and partially fitted, converted (aborted anywhere, overlapping other conversions and native "
            "calls, retried), edited in place together with the objects they were configured with, while snapshots are served, stored and scribbled over. Non-trivial: a conversion was "
            "disturbed or a source was changed while a snapshot of it lived.")
    components = {"real": Prop.components["real"] + ["native scikit-learn / xgboost / fasttext training in the same process"],
                  "simulated": ["thread scheduler", "abort delivery", "clocks", "random seeds", "trainer and callers"]}

    def gen(self, rng, ctx):
        us = [i for i, e in enumerate(ctx.entries) if e["spec"]["kind"] not in ("func",)]
        ctx.turn = getattr(ctx, "turn", -1) + 1
        E = [us[ctx.turn % len(us)]]
        if rng.random() < 0.25:
            E.append(rng.choice(us))
        n = len(E)
        ops = [["convert", 0, None]] if rng.random() < 0.7 else []
        for _ in range(rng.randint(2, 7)):
            x = rng.random()
            p = rng.randrange(n)
            if x < 0.2:
                ops.append(["convert", p, [round(rng.random(), 4), rng.choice(ABORTS)] if rng.random() < 0.8 else None])
            elif x < 0.4:
                k = rng.choice([2, 2, 3])
                th = [rng.choice(["convert", "convert", "native", "serve"]) for _ in range(k)]
                th[0] = "convert"
                ps = [rng.randrange(n) if rng.random() < 0.5 else p for _ in th]
                sw = [[rng.randrange(k), round(rng.random(), 4), rng.randrange(k)] for _ in range(rng.choice([1, 2, 4, 8]))]
                ab = [[rng.randrange(k), round(rng.random(), 4), rng.choice(ABORTS)]] if rng.random() < 0.35 else []
                ops.append(["overlap", [[a, b] for a, b in zip(th, ps)], sw, ab])
            elif x < 0.55:
                ops.append(["train", p])
            elif x < 0.63:
                ops.append(["serve", rng.randrange(6)])
            elif x < 0.7:
                ops.append(["store", rng.randrange(6), rng.randint(0, 5)])
            elif x < 0.8:
                ops.append(["params", p])
            elif x < 0.9:
                ops.append(["edit", p, "all" if rng.random() < 0.5 else rng.randrange(1000), rng.choice(HOWS)])
            else:
                ops.append(["scribble", rng.randrange(6), "all" if rng.random() < 0.6 else rng.randrange(1000), rng.choice(HOWS)])
        tail = rng.random()
        if tail < 0.45:
            ops.append(["edit", rng.randrange(n), "all", rng.choice(HOWS)])
        elif tail < 0.75:
            ops.append(["scribble", rng.randrange(6), "all", rng.choice(HOWS)])
        return {"E": E, "ops": ops, "rs": rng.randrange(1 << 30)}

    def calls(self, plan):
        return ()

    def prepare(self, plan, ctx):
        pass

    def execute(self, plan, ctx):
        setup_run(plan)
        svc = [Service(ctx.entries[e]["spec"]) for e in plan["E"]]
        self.faults, self.nc, self.fired, self.viol = {}, 0, [], None
        snaps = []     # [service position, model, answers at conversion, alive, version name]
        disturbed = False

        def note(k, n=1):
            self.faults[k] = self.faults.get(k, 0) + n

        def bad(what, sig):
            if self.viol is None:
                self.viol = violation(what, sig=sig)

        def reference(s):
            """undisturbed conversion of an independent copy of the source: number of events and answers"""
            c = Counter()
            try:
                m = c(lambda: s.conv(s.source_copy()))
            except Exception as ex:
                return None, c.lines, "%s: %s" % (type(ex).__name__, str(ex)[:150])
            return s.answers(m), c.lines, None

        def take(p, m, ref, how):
            """a finished conversion: same result as the undisturbed one?"""
            s = svc[p]
            got = s.answers(m)
            self.nc += len(got)
            for q, a, b in zip(s.probes, got, ref):
                if a != b:
                    bad("%s: model from %s answers %s: %s, from an undisturbed conversion: %s" % (s.name(), how, core.req_key(q), short(a), short(b)), "convert")
            snaps.append([p, m, ref, True, s.name()])

        def check_snaps(after):
            for p, m, ref, alive, name in snaps:
                if not alive or self.viol:
                    continue
                s = svc[p]
                for q, b in zip(s.probes, ref):
                    a = outcome_of(m, s.e, q)
                    self.nc += 1
                    if a != b:
                        bad("snapshot of %s after %s: %s: answers %s, at conversion it answered %s" % (name, after, core.req_key(q), short(a), short(b)), "snapshot")

        def check_source(s, before, after):
            if s.edited:
                return
            now = s.native()
            if now != before:
                bad("%s: %s changed by %s" % (s.name(), "native answers" if now[0] != before[0] else "what the source says about itself (%s)" % ", ".join(
                    k for k in now[1] if now[1][k] != before[1].get(k)), after), "source")

        for op in plan["ops"]:
            if self.viol:
                break
            if op[0] == "convert":
                s = svc[op[1]]
                if s.edited:
                    continue
                ref, lines, err = reference(s)
                before = s.native()
                if err:
                    # refused when undisturbed: an attempt must leave the source alone all the same
                    try:
                        s.convert()
                    except Exception:
                        pass
                    check_source(s, before, "a refused conversion")
                    continue
                if op[2]:
                    k = max(1, int(op[2][0] * lines + 0.5))
                    box = []
                    sc = Sched([lambda: box.append(self.attempt(s.convert))], abort=[[0, k, op[2][1]]], cap=20000000)
                    sc.run()
                    if sc.problem:
                        bad("%s: conversion: %s" % (s.name(), sc.problem), "stuck")
                        break
                    for f in sc.fired:
                        note("abort:" + f[2])
                        self.fired.append(f)
                        disturbed = True
                    if box and box[0][0] == "ok":
                        take(op[1], box[0][1], ref, "a conversion an exception was delivered into (%s)" % sc.fired)
                    check_source(s, before, "a conversion aborted at %s" % sc.fired)
                    check_snaps("an aborted conversion of %s" % s.name())
                box = []
                sc = Sched([lambda: box.append(self.attempt(s.convert))], cap=20000000)
                sc.run()
                if sc.problem or box[0][0] != "ok":
                    bad("%s: %s conversion failed: %s" % (s.name(), "retried" if op[2] else "repeated", sc.problem or box[0][1]), "retry")
                    break
                take(op[1], box[0][1], ref, "a retried conversion" if op[2] else "a conversion")
                check_source(s, before, "conversion")
            elif op[0] == "overlap":
                tasks = [(a, p) for a, p in op[1] if not svc[p].edited]
                refs = {}
                for a, p in tasks:
                    if p not in refs:
                        refs[p] = reference(svc[p])
                tasks = [(a, p) for a, p in tasks if refs[p][2] is None]
                if not any(a == "convert" for a, p in tasks):
                    continue
                before = {p: svc[p].native() for _, p in tasks}
                res = [None] * len(tasks)
                cnt = []

                def body(i):
                    a, p = tasks[i]
                    s = svc[p]
                    if a == "convert":
                        fn = s.convert
                    elif a == "native":
                        fn = s.native
                    else:
                        live = [x for x in snaps if x[0] == p and x[3]]
                        if not live:
                            fn = s.convert
                            tasks[i] = ("convert", p)
                        else:
                            x = live[-1]
                            fn = (lambda: [y for q, b in zip(s.probes, x[2]) for y in [outcome_of(x[1], s.e, q)] if y != b])

                    def run():
                        res[i] = self.attempt(fn)
                    return run
                fns = [body(i) for i in range(len(tasks))]
                n = [refs[p][1] for _, p in tasks]
                sw = [[t, max(1, int(f * n[t])), to] for t, f, to in op[2] if t < len(fns)]
                ab = [[t, max(1, int(f * n[t])), nm] for t, f, nm in op[3] if t < len(fns) and tasks[t][0] != "native"]
                sc = Sched(fns, switch=sw, abort=ab, cap=30000000)
                sc.run()
                if sc.problem:
                    bad("overlapping conversions: %s" % sc.problem, "stuck")
                    break
                if sc.trace:
                    note("conversion preempted", len(sc.trace))
                    disturbed = True
                hit = set()
                for f in sc.fired:
                    note("abort:" + f[2])
                    self.fired.append(f)
                    hit.add(f[0])
                for i, (a, p) in enumerate(tasks):
                    r = res[i]
                    if r[0] == "raise":
                        if i not in hit:
                            bad("%s: %s overlapping other conversions raised %s" % (svc[p].name(), a, r[1]), "overlap")
                    elif a == "convert":
                        take(p, r[1], refs[p][0], "a conversion overlapping others (%s)" % short(sc.trace, 200))
                    elif a == "native" and r[1] != before[p]:
                        bad("%s: native answers while conversions overlap differ" % svc[p].name(), "source")
                    elif a == "serve" and r[1] and i not in hit:
                        bad("%s: snapshot served during overlapping conversions answered %s" % (svc[p].name(), short(r[1])), "snapshot")
                for p, bf in before.items():
                    check_source(svc[p], bf, "overlapping conversions")
            elif op[0] == "train":
                s = svc[op[1]]
                if s.edited:
                    continue
                try:
                    s.train()
                except Exception:
                    s.edited = True  # no longer trainable after earlier changes of parameters
                note("source retrained")
                if not s.edited and any(x[0] == op[1] for x in snaps):
                    want = s.untouched()
                    self.nc += 1
                    if s.native()[0] != want and s.untouched() == want == s.untouched():  # where training is repeatable at all
                        bad("%s: trained further after being converted it answers otherwise than one that was never converted" % s.name(), "training")
                disturbed |= any(x[0] == op[1] for x in snaps)
                check_snaps("further training of the source")
            elif op[0] == "params":
                s = svc[op[1]]
                if s.b.family == "ft" or not hasattr(s.b.est, "get_params"):
                    continue
                before = [(k, v) for k, v in sorted(s.b.est.get_params(deep=False).items())]
                s.edited = True
                for k, v in before:
                    nv = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v * 2 + 0.5 if isinstance(v, float) else None if isinstance(v, str) else v
                    try:
                        s.b.est.set_params(**{k: nv})
                    except Exception:
                        pass
                note("source parameters changed")
                disturbed |= any(x[0] == op[1] for x in snaps)
                check_snaps("changed parameters of the source")
            elif op[0] == "edit":
                s = svc[op[1]]
                s.edited = True
                pl = places([s.b.est, s.b.configs])
                if s.b.family == "ft":
                    pl = []
                if not pl:
                    continue
                todo = pl if op[2] == "all" else [pl[op[2] % len(pl)]]
                for path, x in todo:
                    if path not in ("", "[1]"):  # not the harness's own wrapping lists
                        edit(x, op[3])
                note("source edited in place", len(todo))
                disturbed |= any(x[0] == op[1] for x in snaps)
                check_snaps("in-place edits (%s) of %s" % (op[3], "everything the source exposes" if op[2] == "all" else todo[0][0]))
            elif op[0] == "serve":
                check_snaps("serving")
            elif op[0] == "store":
                if snaps:
                    x = snaps[op[1] % len(snaps)]
                    if x[3]:
                        try:
                            b = pickle.dumps(x[1], op[2])
                            snaps.append([x[0], pickle.loads(b), x[2], True, x[4] + " stored and loaded"])
                        except Exception as ex:
                            bad("%s: snapshot cannot be stored: %s" % (x[4], ex), "store")
            elif op[0] == "scribble":
                if not snaps:
                    continue
                x = snaps[op[1] % len(snaps)]
                s = svc[x[0]]
                if s.edited or not x[3]:
                    continue
                before = s.native()
                image = pickle.dumps([s.b.est, s.b.configs]) if s.b.family != "ft" else None
                for q in s.probes:  # a caller that owns its answers edits them
                    try:
                        a = core.invoke(x[1], q, core.payload_of(s.e, q))
                        for path in core.containers(a)[:50]:
                            try:
                                scribble(core.at(a, path), op[3])
                            except (KeyError, IndexError, TypeError):
                                pass
                    except Exception:
                        pass
                pl = [(path, y) for path, y in places(x[1]) if not _class_owned(x[1], y)]
                todo = pl if op[2] == "all" or not pl else [pl[op[2] % len(pl)]]
                for path, y in todo:
                    edit(y, op[3])
                x[3] = False
                note("snapshot scribbled over", len(todo))
                disturbed = True
                if image is not None and pickle.dumps([s.b.est, s.b.configs]) != image:
                    bad("%s: editing the converted model (%s) changed the source" % (s.name(), op[3]), "source edited")
                check_source(s, before, "editing the converted model in place")
        check_snaps("the end of the run") if not self.viol else None
        return result(self.viol, self.faults, self.nc, 0.0, core.digest(plan["E"], [ctx.entries[e]["spec"] for e in plan["E"]], plan["ops"], self.fired), disturbed, fired=self.fired)

    @staticmethod
    def attempt(fn):
        try:
            return ("ok", fn())
        except SimStop:
            raise
        except BaseException as ex:
            return ("raise", "%s: %s" % (type(ex).__name__, str(ex)[:200]))

    def shrink(self, plan):
        for ops in drop_each(plan["ops"]):
            yield dict(plan, ops=ops)
        for i, op in enumerate(plan["ops"]):
            def put(x):
                return dict(plan, ops=plan["ops"][:i] + [x] + plan["ops"][i + 1:])
            if op[0] == "convert" and op[2]:
                yield put(op[:2] + [None])
            if op[0] == "overlap":
                for sw in drop_each(op[2]):
                    yield put(op[:2] + [sw, op[3]])
                if op[3]:
                    yield put(op[:3] + [[]])


def _class_owned(model, obj):
    """objects that live on classes or modules (constants shared by design) are not the model's to edit"""
    seen = {id(v) for k in type(model).__mro__ for v in vars(k).values()}
    return id(obj) in seen


# ---------------------------------------------------------------- C14
LABELS14 = [("Pickle Size sklearn", "n"), ("Pickle Size pure-predict", "n"), ("Unpickle time sklearn", "t"), ("Unpickle time pure-predict", "t"),
            ("Predict 1 record sklearn", "t"), ("Predict 1 record pure-predict", "t")]


class Work:
    """what the operations of one run cost; wall clock steps happen inside them"""
    cost = {}
    steps = {}
    log = []

    @classmethod
    def do(cls, name):
        d = cls.cost.get(name, 0.0)
        for frac, step in cls.steps.get(name, ()):
            Clock.advance(d * frac)
            Clock.cpu += d * frac * cls.cost.get("cpu", 0.5)
            Clock.wall += step
            d -= d * frac
        Clock.advance(d)
        Clock.cpu += d * cls.cost.get("cpu", 0.5)


def rebuild(name, blob):
    Work.do("load " + name)
    return Timed(name, pickle.loads(blob), blob)


class Timed:
    """a real model whose storing, loading and predicting take simulated time"""

    def __init__(self, name, inner, blob):
        self.name, self.inner, self.blob = name, inner, blob

    def __reduce__(self):
        Work.do("store " + self.name)
        return (rebuild, (self.name, self.blob))

    def predict(self, X):
        Work.do("predict " + self.name)
        return self.inner.predict(X)

    def __getattr__(self, name):
        if name.startswith("__") or name == "inner":
            raise AttributeError(name)
        return getattr(self.inner, name)


class Tty(io.StringIO):
    def write(self, s):
        Work.do("print")
        return super().write(s)


class Spinning(BaseException):
    pass


class C14(Prop):
    id = "C14"
    env = "trainer"
    wants_entries = False
    families = ("spec",)
    kinds = ("logreg", "dtc", "gnb", "ridge", "sgd", "mnb", "forest", "pipe_num")
    runs = (200, 5000)
    entries = (6, 12)
    rule = ("a run = performance_comparison on a real native model and its conversion, wrapped so that storing, loading and predicting take chosen simulated times, while clocks tick coarsely, "
            "stall and the wall clock steps. The printed report is compared with the true durations. Non-trivial: a clock misbehaved.")
    components = {"real": Prop.components["real"] + ["native scikit-learn models"], "simulated": ["every clock of the time module", "duration of each operation", "standard output"]}

    def gen(self, rng, ctx):
        E = [rng.randrange(len(ctx.entries))]
        cost = {}
        style = rng.choice(["normal", "normal", "tiny", "mixed", "zero"])
        for op in ("load", "store", "predict"):
            for w in ("native", "pure"):
                d = {"normal": rng.uniform(1e-4, 2.0), "tiny": rng.uniform(1e-8, 1e-6), "zero": 0.0,
                     "mixed": rng.choice([0.0, 1e-7, 0.01, 0.5, 30.0, 4000.0])}[style]
                cost["%s %s" % (op, w)] = d
        cost["print"] = rng.choice([0.0, 1e-5, 0.2])
        cost["slice"] = rng.choice([0.0, 0.0, 0.3])
        cost["cpu"] = rng.choice([0.0, 0.1, 0.5, 1.0])
        steps = {}
        for op in list(cost):
            if " " in op and rng.random() < 0.35:
                steps[op] = [[round(rng.random(), 3), rng.choice([-3600.0, -5.0, -0.5, -1e-3, 1e-3, 0.5, 60.0, 86400.0])] for _ in range(rng.choice([1, 1, 2]))]
        x = rng.random()
        tick = None
        if x < 0.3:
            tick = ["coarse", rng.choice([1e-6, 1e-3, 0.015625, 1.0])]
        elif x < 0.5:
            tick = ["stall", round(rng.uniform(0, 2.0), 4), round(rng.choice([0.01, 0.5, 3.0]), 4)]
        elif x < 0.6:
            tick = ["frozen"]
        return {"E": E, "cost": cost, "steps": steps, "tick": tick, "form": rng.choice(["array", "array", "list"]), "base": rng.choice([0.0, 12.5, 1000.0, 86400.0 * 40]),
                "times": rng.choice([1, 1, 2]), "rs": rng.randrange(1 << 30)}

    def calls(self, plan):
        return ()

    def prepare(self, plan, ctx):
        pass

    def execute(self, plan, ctx):
        import numpy as np
        from pure_sklearn.utils import performance_comparison
        setup_run(plan)
        s = Service(ctx.entries[plan["E"][0]]["spec"], probes=3)
        if "predict" not in s.b.methods:
            return result(None, {}, 0, 0.0, core.digest(plan), False)
        pure = s.convert()
        pb = pickle.dumps(pure)
        nat = Timed("native", s.b.est, pickle.dumps(s.b.est))
        pur = Timed("pure", pure, pb)
        Work.cost = {}
        before = (s.native(), s.answers(pure))
        size = (len(pickle.dumps(nat)), len(pickle.dumps(pur)))
        Work.cost, Work.steps = plan["cost"], plan["steps"]
        Clock.start(1.7e9, plan["base"] + 5.0)
        faults = {}
        tick = plan["tick"]
        res = 0.0
        t0 = Clock.mono
        if tick:
            faults["clock " + tick[0]] = 1
        if tick and tick[0] == "coarse":
            res = tick[1]
            view = lambda v: (v // res) * res
        elif tick and tick[0] == "stall":
            res = tick[2]
            a = t0 + tick[1]
            # every clock stands still for a while and then catches up; wall steps stay visible as an offset
            view = lambda v, a=a: v
        elif tick and tick[0] == "frozen":
            res = 1e9
            view = None
        else:
            view = lambda v: v
        if tick and tick[0] in ("stall", "frozen"):
            def clock_view(attr, v):
                lag = 0.0
                if tick[0] == "frozen":
                    lag = Clock.mono - t0
                elif a <= Clock.mono < a + res:
                    lag = Clock.mono - a
                return v - lag
        else:
            def clock_view(attr, v):
                return view(v)
        reads = [0]

        def counted(attr, v):
            # nothing stands still for ever: a helper that waits on a clock gets there, but not after 20 simulated seconds of waiting
            reads[0] += 1
            if reads[0] > 21000:
                raise Spinning()
            if reads[0] > 1000:
                Clock.advance(1e-3)
                return v + 1e-3
            return clock_view(attr, v)
        Clock.view = counted
        nsteps = sum(len(v) for v in plan["steps"].values())
        if nsteps:
            faults["wall clock step"] = nsteps
        rows = [list(r) for r in s.b.pool]

        class Rows(list):
            def __getitem__(self, i):
                if isinstance(i, slice):
                    Work.do("slice")
                    return list.__getitem__(self, i)
                return list.__getitem__(self, i)

        X = np.array(rows) if plan["form"] == "array" else Rows(rows)
        viol = None
        n = 0
        keep = sys.stdout
        for _ in range(plan["times"]):
            out = Tty()
            sys.stdout = out
            try:
                performance_comparison(nat, pur, X)
            except Spinning:
                viol = violation("performance_comparison still waits on a clock after 20 simulated seconds (clock %s, steps %s)" % (tick, plan["steps"]), sig="waits")
            except Exception as ex:
                viol = violation("performance_comparison raised %s: %s (clock %s, steps %s, costs %s)" % (type(ex).__name__, str(ex)[:150], tick, plan["steps"], plan["cost"]), sig="raise")
            finally:
                sys.stdout = keep
            if viol is None and reads[0] <= 1000:
                viol = self.judge(out.getvalue(), plan, size, res)
            n += 4
            if viol:
                break
        Clock.view = None
        Work.cost, Work.steps = {}, {}
        if viol is None and (s.native(), s.answers(pure)) != before:
            viol = violation("%s: a model answers differently after performance_comparison" % s.name(), sig="answers")
        return result(viol, faults, n, Clock.mono - t0, core.digest(plan), bool(faults))

    @staticmethod
    def judge(text, plan, size, res):
        """the report against what truly happened"""
        fig, diffs = {}, []
        for line in text.splitlines():
            k, _, v = line.rpartition(":")
            k = k.strip()
            m = re.search(r"[-+]?(\d+\.?\d*([eE][-+]?\d+)?|inf|nan)", v)
            val = float(m.group(0)) if m else None
            if k == "Difference":
                diffs.append(val if m else v)
            elif k:
                fig[k] = val
        true = {"Pickle Size sklearn": size[0], "Pickle Size pure-predict": size[1],
                "Unpickle time sklearn": plan["cost"]["load native"], "Unpickle time pure-predict": plan["cost"]["load pure"],
                "Predict 1 record sklearn": plan["cost"]["predict native"], "Predict 1 record pure-predict": plan["cost"]["predict pure"]}
        for k, kind in LABELS14:
            if fig.get(k) is None:
                return violation("the report does not contain the figure %r: %s" % (k, short(text)), sig="missing")
            if kind == "n":
                if fig[k] != true[k]:
                    return violation("%s is reported as %s, it is %s" % (k, fig[k], true[k]), sig="size")
                continue
            if fig[k] < 0:
                return violation("%s is reported as %s s: negative (clock %s, steps %s)" % (k, fig[k], plan["tick"], plan["steps"]), sig="negative")
            # float rounding of a clock that has run for plan["base"] seconds
            tol = res + 1e-9 + 1e-9 * true[k] + 1e-15 * (plan["base"] + 1e5) * 8
            if abs(fig[k] - true[k]) > tol:
                return violation("%s is reported as %s s, it truly took %s s (clock %s, steps %s)" % (k, fig[k], true[k], plan["tick"], plan["steps"]), sig="duration")
        if len(diffs) != 3:
            return violation("the report has %d of 3 comparisons: %s" % (len(diffs), short(text)), sig="missing")
        for d, (a, b) in zip(diffs, [(1, 0), (3, 2), (5, 4)]):
            x, y = fig[LABELS14[a][0]], fig[LABELS14[b][0]]
            if y > 0 and (not isinstance(d, float) or abs(d - x / y) > 1e-9 * abs(x / y) + 1e-12):
                return violation("a comparison is reported as %s, the figures give %s" % (d, x / y), sig="ratio")
        return None

    def shrink(self, plan):
        for k in plan["steps"]:
            d = dict(plan["steps"])
            d.pop(k)
            yield dict(plan, steps=d)
        if plan["times"] > 1:
            yield dict(plan, times=1)
        if plan["form"] != "array":
            yield dict(plan, form="array")
        for k, v in plan["cost"].items():
            if v not in (0.0, 0.5):
                yield dict(plan, cost=dict(plan["cost"], **{k: 0.5}))
        if plan["tick"]:
            yield dict(plan, tick=None)


# ---------------------------------------------------------------- C15
WATCHED = ("json", "pickle", "copy", "re", "math", "os", "os.path", "time", "struct", "builtins", "warnings", "random", "locale", "sys", "io", "codecs", "string",
           "collections", "functools", "itertools", "operator", "numbers", "unicodedata", "numpy", "numpy.linalg", "scipy.sparse", "sklearn", "sklearn.base", "sklearn.utils",
           "sklearn.utils.validation", "sklearn.tree", "sklearn.tree._classes", "sklearn.ensemble", "sklearn.feature_extraction.text", "sklearn.preprocessing", "threading", "logging", "gc",
           "signal", "socket", "decimal", "copyreg", "tempfile", "subprocess", "fasttext", "fasttext.FastText", "xgboost", "xgboost.core", "xgboost.sklearn", "sklearn.pipeline", "sklearn.linear_model",
           "sklearn.naive_bayes", "scipy.special", "_pickle", "zlib", "hashlib", "inspect", "types", "weakref", "abc", "traceback", "linecache", "platform", "getpass", "shutil", "pathlib")


def thread_state():
    """state that belongs to the calling thread"""
    import numpy as np
    c = decimal.getcontext()
    xgb = sys.modules.get("xgboost")
    return {"xgboost configuration": xgb.get_config() if xgb else None, "numpy error state": dict(np.geterr()), "decimal context": (c.prec, c.rounding, sorted(str(k) for k, v in c.traps.items() if v)),
            "trace function": sys.gettrace() is None, "profile function": sys.getprofile() is None}


def host_state():
    """process-wide state a library must leave alone"""
    import numpy as np
    import copyreg
    s = {}
    s["warning filters"] = [repr(f) for f in warnings.filters]
    s["warnings.showwarning"] = (id(warnings.showwarning), id(warnings.formatwarning), id(getattr(warnings, "_showwarnmsg", None)), id(getattr(warnings, "_showwarnmsg_impl", None)))
    s["warnings.defaultaction"] = warnings.defaultaction
    s["random state"] = core.digest(random.getstate())
    st = np.random.get_state()
    s["numpy random state"] = core.digest(st[0], st[1].tobytes(), st[2:])
    s["sys.path"] = list(sys.path)
    s["sys.meta_path"] = [id(x) for x in sys.meta_path]
    s["sys.path_hooks"] = [id(x) for x in sys.path_hooks]
    s["environment"] = dict(os.environ)
    s["working directory"] = os.getcwd()
    m = os.umask(0o22)
    os.umask(m)
    s["umask"] = m
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["int digits limit"] = sys.get_int_max_str_digits()
    s["dont_write_bytecode"] = sys.dont_write_bytecode
    s["gc"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(), [id(c) for c in gc.callbacks])
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["signal handlers"] = {n: (h if isinstance(h, int) else id(h)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2, signal.SIGPIPE, signal.SIGCHLD)
                            for h in [signal.getsignal(n)]}
    s["timers"] = signal.getitimer(signal.ITIMER_REAL)[1]
    s["open files"] = sorted((int(f), _fd(f)) for f in os.listdir("/proc/self/fd") if _fd(f))
    s["threads"] = sorted(str(t.name) for t in threading.enumerate())
    s["standard streams"] = tuple((id(f), f.closed) for f in (sys.stdin, sys.stdout, sys.stderr)) + tuple(id(f) for f in (sys.__stdin__, sys.__stdout__, sys.__stderr__))
    s["hooks"] = (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(threading.excepthook), id(sys.breakpointhook))
    root = logging.getLogger()
    s["logging"] = (root.level, [id(h) for h in root.handlers], [id(f) for f in root.filters], logging.root.manager.disable, logging.raiseExceptions, logging.lastResort is None,
                    sorted((n, l.level, l.disabled, l.propagate, len(l.handlers)) for n, l in logging.root.manager.loggerDict.items()
                           if isinstance(l, logging.Logger) and (l.level or l.handlers or l.disabled)))
    s["socket timeout"] = socket.getdefaulttimeout()
    s["pickle registrations"] = sorted(str(k) for k in copyreg.dispatch_table)
    import _abc
    import copy
    import pickle
    import numbers
    s["dispatch tables"] = [sorted(str(k) for k in t) for t in (copy._copy_dispatch, copy._deepcopy_dispatch, pickle._Pickler.dispatch, pickle._Unpickler.dispatch)] + [
        len(_abc._get_dump(getattr(numbers, n))[0]) for n in ("Number", "Complex", "Real", "Rational", "Integral")]
    c = decimal.DefaultContext
    s["default decimal context"] = (c.prec, c.rounding, sorted(str(k) for k, v in c.traps.items() if v))
    s["numpy buffer size"] = (np.getbufsize(), id(np.geterrcall()))
    s["numpy print options"] = {k: str(v) for k, v in np.get_printoptions().items()}
    import sklearn
    s["scikit-learn configuration"] = sklearn.get_config()
    if "xgboost" in sys.modules:
        s["xgboost configuration"] = sys.modules["xgboost"].get_config()
    if "pandas" in sys.modules:
        s["pandas options"] = repr(sys.modules["pandas"]._config.config._global_config)
    s["exit handlers"] = atexit._ncallbacks()
    s["resource limits"] = [resource.getrlimit(getattr(resource, n)) for n in ("RLIMIT_NOFILE", "RLIMIT_STACK", "RLIMIT_AS", "RLIMIT_CORE", "RLIMIT_DATA")]
    s["priority"] = os.getpriority(os.PRIO_PROCESS, 0)
    s["interpreter settings"] = (sys.getdlopenflags(), threading.stack_size(), faulthandler.is_enabled(), tracemalloc.is_tracing(), sys.tracebacklimit if hasattr(sys, "tracebacklimit") else None,
                                 sys.pycache_prefix, time.tzname)
    mods = {}
    for n in WATCHED:
        mod = sys.modules.get(n)
        if mod is not None:
            mods[n] = {k: id(v) for k, v in vars(mod).items() if callable(v) and not (n == "sys" and k in ("stdout", "stderr", "stdin", "last_exc"))}
    s["functions of other modules"] = mods
    cls = {}
    for n in ("sklearn.base", "sklearn.tree._classes", "sklearn.pipeline", "numpy", "builtins", "json", "pickle", "re", "string", "warnings"):
        mod = sys.modules.get(n)
        for k, v in list(vars(mod).items()) if mod else []:
            if isinstance(v, type):
                cls[n + "." + k] = {a: id(x) for a, x in vars(v).items() if isinstance(x, (types.FunctionType, property, staticmethod, classmethod, int, str, float))}
    s["attributes of other classes"] = cls
    return s


def quick_state():
    """the part of it that is cheap enough to look at after every line"""
    return (id(warnings.filters), len(warnings.filters), id(warnings.showwarning), sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(),
            len(sys.path), len(sys.meta_path), len(os.environ), id(sys.stdout), id(sys.stderr), id(sys.excepthook), id(sys.stdin), sys.dont_write_bytecode,
            socket.getdefaulttimeout(), locale.setlocale(locale.LC_NUMERIC), id(builtins.open), id(builtins.print), id(builtins.__import__), os.getcwd())


def _fd(f):
    try:
        t = os.readlink("/proc/self/fd/" + f)
    except OSError:
        return None
    return None if t.startswith("/proc/") else t


def differences(a, b):
    out = []
    for k in a:
        if a[k] == b[k]:
            continue
        if k in ("functions of other modules", "attributes of other classes"):
            for m in a[k]:
                for n, x in a[k][m].items():
                    if b[k].get(m, {}).get(n) != x:
                        out.append("%s.%s was replaced or removed" % (m, n))
            continue
        out.append("%s: %s -> %s" % (k, short(a[k], 400), short(b[k], 400)))
    return out


class C15(Prop):
    id = "C15"
    env = "trainer"
    lazy_import = True
    wants_entries = False
    families = ("spec",)
    runs = (200, 3000)
    entries = (32, 64)
    boost = {"func": 0.01, "dtc": 1.5, "dtr": 1.5, "forest": 1.5, "gb": 1.5}
    rule = ("a run = a host process in which 1-4 rounds of 1-3 overlapping operations (convert, store, load, serve well-formed and malformed requests; first use imports the packages) are preempted "
            "and aborted; about 35 kinds of process-wide state and the operating threads' own state are compared before and after. Non-trivial: something was preempted or aborted.")
    components = C10.components

    def gen(self, rng, ctx):
        us = [i for i, e in enumerate(ctx.entries) if e["spec"]["kind"] not in ("func",)]
        ctx.turn = getattr(ctx, "turn", -1) + 1
        E = [us[ctx.turn % len(us)]]
        if rng.random() < 0.4:
            E.append(rng.choice(us))
        rounds = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice([1, 2, 2, 2, 3])
            same = rng.random() < 0.5
            op = rng.choice(["convert", "convert", "convert", "load", "serve", "serve"])
            th = []
            for _ in range(k):
                th.append([op if same else rng.choice(["convert", "convert", "load", "serve", "badserve", "store"]), rng.randrange(len(E)), rng.randrange(1000)])
            if k > 1 and rng.random() < 0.4:  # the first to come is the first to go
                sw = [[0, round(rng.random(), 4), 1, True], [1, round(rng.random(), 4), 0, True]]
            elif k > 1:
                sw = [[t, round(rng.random(), 4), (t + rng.randrange(1, k)) % k, rng.random() < 0.5] for t in [rng.randrange(k) for _ in range(rng.choice([0, 1, 2, 4, 8]))]]
            else:
                sw = []
            rounds.append({"th": th, "sw": sw,
                           "ab": [[rng.randrange(k), round(rng.random(), 4), rng.choice(ABORTS), rng.random() < 0.5] for _ in range(rng.choice([1, 1, 2]))] if rng.random() < 0.5 else []})
        return {"E": E, "cold": rng.random() < 0.3, "filters": rng.choice(["default", "error", "ignore", "empty"]), "rounds": rounds, "rs": rng.randrange(1 << 30)}

    def calls(self, plan):
        return ()

    def prepare(self, plan, ctx):
        pass

    def execute(self, plan, ctx):
        setup_run(plan)
        svc = [Service(ctx.entries[e]["spec"], probes=4) for e in plan["E"]]
        warnings.resetwarnings()
        if plan["filters"] != "empty":
            warnings.simplefilter(plan["filters"] if plan["filters"] != "default" else "default")
            warnings.filterwarnings("ignore", message="host application's own filter", category=UserWarning)
        out, err = io.StringIO(), io.StringIO()
        for f in ("stdin", "stdout", "stderr"):
            if getattr(sys, f) is None:
                setattr(sys, f, open(os.devnull))
        real = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = out, err
        gc.collect()
        host_state()
        start = host_state()
        faults, nc, fired, viol, log = {}, 0, [], None, []
        models = [[] for _ in svc]
        blobs = [[] for _ in svc]
        lens, odd = {}, {}

        def task(op, p, i):
            s = svc[p]
            if op == "load" and not blobs[p] or op in ("serve", "badserve", "store") and not models[p]:
                op = "convert"
            if op == "convert":
                def fn():
                    m = s.convert()
                    models[p].append(m)
            elif op == "store":
                def fn():
                    blobs[p].append(pickle.dumps(models[p][-1], i % 6))
            elif op == "load":
                def fn():
                    models[p].append(pickle.loads(blobs[p][i % len(blobs[p])]))
            else:
                req = s.probes[i % len(s.probes)]
                if op == "badserve" and s.e["bad"]:
                    req = {"m": s.e["methods"][i % len(s.e["methods"])], "bad": i % len(s.e["bad"])}

                def fn():
                    core.invoke(models[p][-1], req, core.payload_of(s.e, req))
            return op, fn

        ops = [0]

        def guarded(fn, who, hurt):
            def run():
                a = thread_state()
                try:
                    fn()
                except SimStop:
                    raise
                except BaseException:
                    pass
                b = thread_state()
                for k in a:
                    if a[k] != b[k]:
                        hurt.append("%s of the calling thread: %s -> %s" % (k, a[k], b[k]))
            return run

        def changed(what, hurt=()):
            nonlocal viol
            d = list(hurt) + differences(start, host_state())
            if out.getvalue():
                d.append("printed on standard output: %s" % short(out.getvalue()))
            if d and viol is None:
                viol = violation("%s left changed process-wide state: %s" % (what, "; ".join(d)[:900]), sig="state:" + d[0].split(":")[0][:60])

        try:
            if not plan["cold"]:
                for p, s in enumerate(svc):
                    hurt = []
                    c = Counter()
                    usual = quick_state()
                    c.watch = lambda: quick_state() != usual
                    with_counter = guarded(lambda: c(lambda: models[p].append(s.convert())), "convert", hurt)
                    with_counter()
                    lens["convert", p] = c.lines
                    odd["convert", p] = c.odd_lines
                    if models[p]:
                        c = Counter()
                        c.watch = lambda: quick_state() != usual
                        guarded(lambda: c(lambda: core.invoke(models[p][-1], s.probes[0], core.payload_of(s.e, s.probes[0]))), "serve", hurt)()
                        lens["serve", p] = c.lines
                        odd["serve", p] = c.odd_lines
                        blobs[p].append(pickle.dumps(models[p][-1]))
                    nc += 2
                    changed("converting and serving %s" % s.name(), hurt)
                    if viol:
                        break
            for rd in plan["rounds"]:
                if viol:
                    break
                work = [task(*x) for x in rd["th"]]
                hurt = []
                fns = [guarded(fn, op, hurt) for op, fn in work]
                n = [lens.get((op if op == "convert" else "serve", x[1]), 60) for (op, _), x in zip(work, rd["th"])]
                hot = [odd.get((op if op == "convert" else "serve", x[1]), ()) for (op, _), x in zip(work, rd["th"])]

                def at(t, f, h):  # anywhere in the call, or where it has process-wide state changed for the moment
                    return hot[t][int(f * len(hot[t]))] if h and hot[t] else max(1, int(f * n[t]))
                sw = [[t, at(t, f, h), to] for t, f, to, h in rd["sw"]]
                ab = [[t, at(t, f, h), nm] for t, f, nm, h in rd["ab"]]
                sc = Sched(fns, switch=sw, abort=ab, cap=30000000)
                sc.run()
                nc += len(work)
                log.append((sc.trace, sc.fired))
                for f in sc.fired:
                    faults["abort:" + f[2]] = faults.get("abort:" + f[2], 0) + 1
                if sc.trace:
                    faults["preemption"] = faults.get("preemption", 0) + len(sc.trace)
                desc = "%s%s%s" % (" || ".join("%s %s" % (op, svc[x[1]].name()[:150]) for (op, _), x in zip(work, rd["th"])), ", preempted at %s" % [t[2] for t in sc.trace[:6]] if sc.trace else "",
                                   ", aborted at %s" % [f[3] for f in sc.fired] if sc.fired else "")
                if sc.problem:
                    viol = violation("%s: %s" % (desc, sc.problem), sig="stuck")
                    break
                left = [t for t in sc.thr if t.aux and t.state != "done"]
                if left:
                    hurt.append("%d threads started by the library still run" % len(left))
                changed(desc, hurt)
        finally:
            sys.stdout, sys.stderr = real
        return result(viol, faults, nc, 0.0, core.digest(plan, log), bool(faults))

    def shrink(self, plan):
        for rs in drop_each(plan["rounds"]):
            yield dict(plan, rounds=rs)
        for i, rd in enumerate(plan["rounds"]):
            def put(x):
                return dict(plan, rounds=plan["rounds"][:i] + [x] + plan["rounds"][i + 1:])
            for sw in drop_each(rd["sw"]):
                yield put(dict(rd, sw=sw))
            for ab in drop_each(rd["ab"]):
                yield put(dict(rd, ab=ab))
            if len(rd["th"]) > 1:
                for j in range(len(rd["th"])):
                    if not any(x[0] >= len(rd["th"]) - 1 for x in rd["sw"] + rd["ab"]):
                        yield put(dict(rd, th=rd["th"][:j] + rd["th"][j + 1:]))
        if plan["filters"] != "default":
            yield dict(plan, filters="default")

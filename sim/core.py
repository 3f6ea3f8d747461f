"""
Shared, dependency-free part of the simulator: requests, models, canonical outcomes, comparison.
Runs on the standard library only (server nodes have nothing else).
"""
import hashlib
import json
import math
import os
import pickle
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG_DIRS = tuple(os.path.join(REPO, p) + os.sep for p in ("pure_sklearn", "pure_fasttext"))


_code = {}


class SimId:
    """
    Simulated object identity for code under test.  Two objects that are alive together never share an
    identity, and an object keeps its identity while it lives; the identity of a dead object goes to the next
    new object of its type.  That is all id() promises, and what a busy memory allocator really does.
    """

    def __init__(self):
        self.on = False
        self.reset()

    def reset(self):
        self.live = {}   # address -> [object, identity]
        self.free = {}   # type -> identities of dead objects, last one first
        self.next = 1 << 46
        self.asked = self.reused = 0
        self.due = 0

    def sweep(self):
        """let go of every object nobody else refers to"""
        count = sys.getrefcount
        again = True
        while again:
            again = False
            for a in list(self.live):
                ent = self.live.get(a)
                if ent is not None and count(ent[0]) == 2:
                    del self.live[a]
                    typ = type(ent[0])
                    ent[0] = None   # finalisers and weak reference callbacks run here, before the identity is free
                    self.free.setdefault(typ, []).append(ent[1])
                    again = True
        self.due = max(64, 2 * len(self.live))

    def __call__(self, obj):
        if not self.on:
            return _id(obj)
        self.asked += 1
        ent = self.live.get(_id(obj))
        if ent is None:
            self.due -= 1
            if self.due < 0 or len(self.live) < 256:
                self.sweep()
            pool = self.free.get(type(obj))
            if pool:
                token = pool.pop()
                self.reused += 1
            else:
                token = self.next
                self.next += 64
            ent = self.live[_id(obj)] = [obj, token]
        return ent[1]


_id = id
sim_id = SimId()


def install_loader():
    """
    Packages under test are compiled from their source of this moment: a stale __pycache__ (which is
    only checked by size and second of modification) never hides a change.
    """
    import importlib.machinery as im

    class Loader(im.SourceFileLoader):
        def exec_module(self, module):
            module.__dict__["id"] = sim_id
            super().exec_module(module)

        def get_code(self, fullname):
            path = self.get_filename(fullname)
            if path not in _code:
                _code[path] = self.source_to_code(self.get_data(path), path)
            return _code[path]

    def hook(path):
        if not (path + os.sep).startswith((REPO.rstrip("/") + "/",)):
            raise ImportError
        return im.FileFinder(path, (Loader, [".py"]))
    sys.path_hooks.insert(0, hook)
    for k in [k for k in sys.path_importer_cache if k.startswith(REPO)]:
        del sys.path_importer_cache[k]


def precompile():
    """fill the code cache without importing anything"""
    for d in PKG_DIRS:
        for dp, dn, fn in os.walk(d):
            if "tests" in dp.split(os.sep):
                continue
            for f in fn:
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    with open(p, "rb") as fh:
                        _code[p] = compile(fh.read(), p, "exec", dont_inherit=True)


def import_packages():
    """Import every (non-test) module of the packages under test from REPO."""
    import importlib
    import pkgutil
    install_loader()
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    for top in ("pure_sklearn", "pure_fasttext"):
        pkg = importlib.import_module(top)
        assert os.path.realpath(pkg.__file__).startswith(os.path.realpath(REPO) + os.sep), pkg.__file__
        for m in pkgutil.walk_packages(pkg.__path__, top + "."):
            if ".tests" not in m.name:
                importlib.import_module(m.name)


# ------------------------------------------------------------------ canonical values
def ocanon(x):
    """image of request data: as canon, but the order of dict items counts"""
    if isinstance(x, dict):
        return ("d", tuple((canon(k), ocanon(v)) for k, v in x.items()))
    if isinstance(x, list):
        if hasattr(x, "size"):
            return ("sparse", x.size, getattr(x.dtype, "__name__", str(x.dtype)), tuple(ocanon(v) for v in x))
        return ("l", tuple(ocanon(v) for v in x))
    if isinstance(x, tuple):
        return ("t", tuple(ocanon(v) for v in x))
    return canon(x)


def canon(x):
    """Exact, hashable, type-aware image of a value (answers and request data)."""
    t = type(x)
    if t is float:
        return ("f", "nan" if x != x else x.hex())
    if t is int or t is bool or t is str or x is None or t is bytes:
        return (t.__name__, x)
    if isinstance(x, dict):
        items = [(canon(k), canon(v)) for k, v in x.items()]
        items.sort(key=repr)
        return ("d", tuple(items))
    if isinstance(x, list):
        if t is not list and hasattr(x, "size"):
            return ("sparse", x.size, getattr(x.dtype, "__name__", str(x.dtype)), tuple(canon(v) for v in x))
        return ("l", tuple(canon(v) for v in x))
    if isinstance(x, tuple):
        return ("t", tuple(canon(v) for v in x))
    if isinstance(x, float):
        return ("F", t.__name__, float(x).hex() if x == x else "nan")
    return ("o", t.__name__)


def close(a, b, rtol, atol):
    if a == b:
        return True
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def _num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def approx(a, b, rtol=1e-9, atol=1e-12):
    """Structural equality of two answers with float tolerance (same package version on both sides)."""
    if isinstance(a, float) or isinstance(b, float):
        return _num(a) and _num(b) and close(float(a), float(b), rtol, atol)
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(k in b and approx(v, b[k], rtol, atol) for k, v in a.items())
    if isinstance(a, list):
        if hasattr(a, "size") != hasattr(b, "size"):
            return False
        if hasattr(a, "size") and (a.size != b.size):
            return False
        return isinstance(b, list) and len(a) == len(b) and all(approx(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(approx(x, y, rtol, atol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------ requests
class FuncModel:
    """Service wrapper around the stateless public functions (pairwise metrics, normalize)."""

    def __init__(self, Y):
        self.Y = Y  # second operand: request data too

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from pure_sklearn.metrics import pairwise as P
        from pure_sklearn.preprocessing import normalize_pure
        if name.startswith("normalize_"):
            part = name.split("_")
            return lambda X: normalize_pure(X, norm=part[1], axis=0 if part[-1] == "axis0" else 1)
        fn = getattr(P, name.replace("_self", "") + "_pure")
        if name.endswith("_self"):
            return lambda X: fn(X)
        return lambda X: fn(X, self.Y)


def operand(entry, version):
    """second operand of the pairwise functions: another for each version"""
    a, z = ((3, 6), (0, 2), (1, 4))[version]
    return [list(r) for r in entry["pool"][a:z]]


def load_model(entry, version=0, blob=None):
    if entry["family"] == "func":
        return FuncModel(operand(entry, version))
    return pickle.loads(blob if blob is not None else entry["versions"][version]["blob"])


def copy_record(r):
    if isinstance(r, list):
        return [copy_record(v) for v in r]
    if isinstance(r, dict):
        return {k: copy_record(v) for k, v in r.items()}
    return r


def to_sparse(rows, size):
    from pure_sklearn.utils import sparse_list
    from sched import Sched
    s = Sched.current  # building a request is the caller's work: no scheduling events
    was = s.quiet if s is not None else None
    if s is not None:
        s.quiet = True
    try:
        return sparse_list([{j: v for j, v in enumerate(r) if v != 0} for r in rows], size=size, dtype=float)
    finally:
        if s is not None:
            s.quiet = was


def make_payload(entry, records, form):
    """Fresh request object."""
    if form == "raw":
        return records
    if form == "one":
        return copy_record(records[0])
    rows = [copy_record(r) for r in records]
    if form == "list":
        return rows
    if form == "tuple":
        return tuple(rows)
    if form == "generator":
        return (r for r in rows)
    if form == "sparse":
        return to_sparse(rows, len(rows[0]))
    raise KeyError(form)


def source(entries, ei, req):
    """entry whose pool the request's records come from"""
    return entries[req.get("src", ei)]


def bad_row(entry, i):
    """a malformed record: the last one of malformed request i"""
    return entry["bad"][i]["records"][-1]


def records_of(entry, req):
    """request -> list of record values.  req: {m, form, idx:[..]} | {m, bad: i} ; 'words' domain for fasttext words"""
    if "badrow" in req:
        return [bad_row(entry, req["badrow"])]
    if "bad" in req:
        return entry["bad"][req["bad"]]["records"]
    dom = domain(entry, req["m"])
    return [derived(dom, i) for i in req["idx"]]


def derived(dom, i):
    """
    Record i of an endless pool: the first ones are the pool itself, the others are mixed from two of them
    (columns of either, text of both with a word of its own, entries of both).
    """
    if i < len(dom):
        return dom[i]
    h = int.from_bytes(hashlib.sha256(b"%d" % i).digest(), "big")
    a, b, h = dom[h % len(dom)], dom[(h >> 16) % len(dom)], h >> 32
    if isinstance(a, str) and isinstance(b, str):
        return "%s w%d %s" % (a, i, b) if " " in a + b else "%s%d" % (a, i)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [(y if h >> (k % 200) & 1 else x) for k, (x, y) in enumerate(zip(a, b))]
    if isinstance(a, dict) and isinstance(b, dict):
        return dict(a, **b)
    return a


def domain(entry, method):
    if entry["family"] == "ft" and method in ("get_word_vector", "get_word_id"):
        return entry["words"]
    return entry["pool"]


def payload_of(entry, req):
    form = entry["bad"][req["bad"]]["form"] if "bad" in req else req["form"]
    return make_payload(entry, records_of(entry, req), form)


def invoke(model, req, payload):
    kw = {}
    if "k" in req:
        kw["k"] = req["k"]
    if "thr" in req:
        kw["threshold"] = req["thr"]
    return getattr(model, req["m"])(payload, **kw)


def outcome(fn):
    """("ok", canonical answer) or ("raise", exception type)"""
    from sched import SimStop
    try:
        r = fn()
    except SimStop:
        raise
    except BaseException as ex:
        return ("raise", type(ex).__name__)
    return ("ok", canon(r))


def call(model, entry, req, payload=None):
    p = payload_of(entry, req) if payload is None else payload
    return outcome(lambda: invoke(model, req, p))


def neutral(x):
    """answer as plain builtin containers (a sparse matrix becomes {"__sparse__": size, "rows": [...]})"""
    if isinstance(x, list):
        r = [neutral(v) for v in x]
        return {"__sparse__": x.size, "rows": r} if hasattr(x, "size") else r
    if isinstance(x, tuple):
        return tuple(neutral(v) for v in x)
    if isinstance(x, dict):
        return {k: neutral(v) for k, v in x.items()}
    return x


def plain(x):
    """neutral, a sparse matrix as the plain list of its rows"""
    n = neutral(x)
    return n["rows"] if isinstance(n, dict) and "__sparse__" in n else n


# ------------------------------------------------------------------ owned copies
def clone(x):
    """tree-shaped copy: shares no container with x and none internally"""
    if isinstance(x, list):
        if type(x) is list:
            return [clone(v) for v in x]
        c = type(x).__new__(type(x))
        c.extend(clone(v) for v in x)
        c.__dict__.update(getattr(x, "__dict__", {}))
        return c
    if isinstance(x, tuple):
        return tuple(clone(v) for v in x)
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    return x


def containers(x, path=(), out=None, limit=400):
    """paths of all mutable containers in x"""
    out = [] if out is None else out
    if len(out) >= limit:
        return out
    if isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out.append(path)
        for i, v in enumerate(x):
            if isinstance(v, (list, tuple, dict)):
                containers(v, path + (i,), out, limit)
    elif isinstance(x, dict):
        out.append(path)
        for k, v in x.items():
            if isinstance(v, (list, tuple, dict)):
                containers(v, path + (k,), out, limit)
    return out


def at(x, path):
    for k in path:
        x = x[k]
    return x


def scribble(c, how):
    """edit a list or dict in place"""
    if isinstance(c, dict):
        if how == "clear":
            c.clear()
        elif how == "append":
            c[10 ** 6 + len(c)] = 7.5
        elif how == "pop" and c:
            c.pop(next(iter(c)))
        elif how == "set" and c:
            c[next(iter(c))] = -12345.0
        else:
            c[3] = 9.25
    else:
        if how == "clear":
            c.clear()
        elif how == "append":
            c.append(7.5)
        elif how == "pop" and c:
            c.pop()
        elif how == "set" and c:
            c[0] = -12345.0
        elif how == "reverse" and len(c) > 1:
            c.reverse()
        else:
            c.insert(0, 9.25)


HOWS = ["clear", "append", "pop", "set", "reverse", "insert"]


def gen_request(rng, entry, methods=None, maxn=4, forms=None, bad=0.0):
    """random request over the entry's pool"""
    if bad and entry["bad"] and rng.random() < bad:
        return {"m": rng.choice(methods or entry["methods"]), "bad": rng.randrange(len(entry["bad"]))}
    m = rng.choice(methods or entry["methods"])
    fs = [f for f in (forms or entry["forms"])]
    req = {"m": m}
    if entry["family"] == "ft":
        form = "one"
        n = 1
        if m == "predict":
            if "list" in fs and rng.random() < 0.4:
                form, n = "list", rng.randint(1, maxn)
            k, thr = rng.choice(entry["kws"])
            req["k"], req["thr"] = k, thr
    else:
        form = rng.choice(fs)
        n = rng.choice([1, 1, 2, 3, maxn])
        if entry["family"] == "func" and form == "sparse" and m == "normalize_l2_axis0":
            form = "list"
        if entry["family"] == "func" and form == "sparse" and m.endswith("_self"):
            form = "list"
    dom = domain(entry, m)
    req["form"] = form
    req["idx"] = [rng.randrange(len(dom)) for _ in range(n)]
    return req


def req_key(req):
    return json.dumps(req, sort_keys=True)


def digest(*parts):
    return hashlib.sha256(repr(parts).encode()).hexdigest()[:16]

"""
Simulations around storage and files: C06 (stored models survive crashes), C07 (nothing but the
standard library), C08 (document files).
"""
import base64
import zlib
import builtins
import copy
import errno
import io
import os
import pickle
import random
import struct
import subprocess
import sys

import core
from core import approx, short, neutral
from props import Prop, setup_run, payload
from runner import result, violation, drop_each, in_child
from sched import Sched, Clock, Deadline, EXC

ENTRY_KEYS = ("family", "pool", "words", "kws", "bad", "methods", "forms", "d", "desc", "spec")


# ---------------------------------------------------------------- one life of a server process
THIRD = {"numpy", "scipy", "sklearn", "xgboost", "fasttext", "fasttext_pybind", "pandas", "joblib", "threadpoolctl", "six", "pybind11", "setuptools",
         "pkg_resources", "packaging", "dateutil", "pytz", "cython", "distutils"}


class Blocker:
    """no third-party package can be imported: absent, or broken when imported"""

    def __init__(self, mode):
        self.mode = mode
        self.asked = []

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top in ("pure_sklearn", "pure_fasttext") or (top in sys.stdlib_module_names and top != "distutils"):
            return None
        self.asked.append(name)
        if self.mode == "absent" or top not in THIRD:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if self.mode == "import error":
            raise ImportError("%s: cannot open shared object file (simulated)" % name, name=name)
        if self.mode == "os error":
            raise OSError("libgomp.so.1: cannot open shared object file (simulated)")
        raise RuntimeError("module compiled against a different API version (simulated)")


def same(got, served):
    if served[0] == "raise":
        return got[0] == "raise"
    return got[0] == "ok" and approx(got[1], served[1], 1e-9, 1e-12)


def life(task):
    """load artifacts, serve, be aborted, store; returns what happened"""
    e = task["entry"]
    blocker = None
    if task.get("block"):
        blocker = Blocker(task["block"])
        sys.meta_path.insert(0, blocker)
        for n in list(sys.modules):
            if n.partition(".")[0] in THIRD:
                del sys.modules[n]
    random.seed(task["rs"])
    Clock.start(1.7e9 + task["rs"] % 9999, 500.0)
    out = {"viol": None, "artifacts": [], "calls": 0, "faults": {}, "fired": [], "loaded": None, "asked": []}

    def fault(k, n=1):
        out["faults"][k] = out["faults"].get(k, 0) + n

    def bad(what, sig):
        if out["viol"] is None:
            out["viol"] = violation("%s [%s seed %s v%s]: %s" % (e["desc"][:200], e["spec"]["kind"], e["spec"]["seed"], task["v"], what), sig=sig)

    model = None
    for i, (blob, torn) in enumerate(task["load"]):
        try:
            m = pickle.loads(blob)
        except BaseException as ex:
            if torn:
                fault("torn artifact refused")
                continue
            bad("a complete artifact (%d bytes) cannot be loaded: %s: %s" % (len(blob), type(ex).__name__, str(ex)[:200]), "load")
            return out
        if torn:
            bad("a torn artifact of %d bytes was loaded as %s" % (len(blob), type(m).__name__), "torn")
            return out
        model = m
        out["loaded"] = i
        break
    if model is None:
        return out
    live = [model]

    def call(which, i):
        req = task["probes"][i]
        out["calls"] += 1
        box = []

        def go():
            box.append(core.invoke(live[which % len(live)], req, core.payload_of(e, req)))
        o = core.outcome(go)
        return ["ok", neutral(box[0])] if o[0] == "ok" else ["raise", o[1]]

    def check(i, got, who, hit=False):
        exp = task["served"][i]
        if not same(got, exp) and not (hit and got[0] == "raise"):
            bad("%s: %s: got %s, the original answered %s" % (who, core.req_key(task["probes"][i]), short(got), short(exp)), "answer")

    def store(how):
        if how[0] == "pickle":
            out["artifacts"].append(pickle.dumps(live[-1], how[1]))
        elif how[0] == "copy":
            live.append(copy.copy(live[-1]))
        elif how[0] == "deepcopy":
            live.append(copy.deepcopy(live[-1]))
        elif how[0] == "reload":
            live.append(pickle.loads(pickle.dumps(live[-1], how[1])))

    for st in task["steps"]:
        if out["viol"]:
            break
        if st[0] == "call":
            _, i, which, k, name = st
            res = []
            s = Sched([lambda: res.append(call(which, i))], abort=[[0, k, name]] if k else [], cap=5000000)
            s.run()
            if s.problem:
                bad("call stuck: %s" % s.problem, "stuck")
                break
            for x in s.fired:
                fault("abort:" + x[2])
                out["fired"].append(x)
            check(i, res[0], "served from %s" % ("a copy" if which % len(live) else "the loaded artifact"), bool(s.fired))
        elif st[0] == "store":
            _, how, inside = st
            try:
                if inside is None:
                    r = []

                    def quiet_store():
                        try:
                            store(how)
                        except Exception as ex:
                            r.append(ex)
                    s = Sched([quiet_store], cap=5000000)
                    s.run()
                else:
                    i, k = inside
                    got, r = [], []

                    def st_thread():
                        try:
                            store(how)
                        except Exception as ex:
                            r.append(ex)
                    s = Sched([lambda: got.append(call(0, i)), st_thread], switch=[[0, k, 1]], cap=5000000)
                    s.run()
                    if s.trace:
                        fault("stored in the middle of a call")
                    if not s.problem:
                        check(i, got[0], "served while being stored")
                if s.problem:
                    bad("store stuck: %s" % s.problem, "stuck")
                if r:
                    bad("cannot be stored (%s): %s: %s" % (how, type(r[0]).__name__, str(r[0])[:200]), "store")
            except Exception as ex:
                bad("cannot be stored (%s): %s: %s" % (how, type(ex).__name__, str(ex)[:200]), "store")
    if blocker is not None:
        out["asked"] = sorted(set(blocker.asked))[:20]
    return out


# ---------------------------------------------------------------- C06
class Zygote:
    def __init__(self, seed, mode):
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "VERIF_REPO", "VERIF_DEBUG", "TMPDIR", "LANG", "HOME")}
        env["PYTHONHASHSEED"] = str(seed)
        self.p = subprocess.Popen([sys.executable, "-B", "-S", "-P", os.path.join(os.path.dirname(os.path.abspath(__file__)), "zygote.py"), mode],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def ask(self, task):
        b = pickle.dumps(task)
        self.p.stdin.write(struct.pack("<I", len(b)) + b)
        self.p.stdin.flush()
        h = self.p.stdout.read(4)
        if len(h) < 4:
            raise RuntimeError("zygote died")
        return pickle.loads(self.p.stdout.read(struct.unpack("<I", h)[0]))

    def close(self):
        self.p.stdin.close()
        self.p.wait()


ZY = [(0, "eager"), (7, "eager"), (424242, "lazy")]


class C06(Prop):
    id = "C06"
    runs = (240, 3500)
    entries = (30, 60)
    families = ("num", "docs", "cat", "dicts", "ft")
    probes = 8
    own_child = True
    rule = ("a run = 2-6 lives of server processes (fresh processes, three different hash seeds, one importing the packages only through the artifact): load the newest artifact, "
            "serve, be aborted, store again (pickle protocols 0-5, copy, deepcopy, in the middle of a call), crash with torn or lost writes. Answers are compared with those of the "
            "original converted model in the training process. Non-trivial: at least two lives loaded an artifact.")
    components = {"real": Prop.components["real"] + ["separate interpreter processes per life"], "simulated": ["disk and its crash behaviour", "clocks", "random seeds", "thread scheduler"]}

    def open(self, ctx):
        self.z = [Zygote(s, m) for s, m in ZY]

    def close(self, ctx):
        for z in self.z:
            z.close()

    def gen(self, rng, ctx):
        us = [i for i in ctx.usable(self.families) if ctx.entries[i].get("probes")]
        e = ctx.pick(rng, us)
        v = ctx.version(e, rng)
        np_ = len(ctx.entries[e]["probes"])
        gens = []
        for g in range(rng.randint(2, 5)):
            steps = []
            for _ in range(rng.randint(0, 4)):
                x = rng.random()
                i = rng.randrange(np_)
                if x < 0.55:
                    k, name = 0, ""
                    if rng.random() < 0.3:
                        k, name = rng.randint(1, max(1, ctx.golden(e, v, ctx.entries[e]["probes"][i])["lines"])), rng.choice(["deadline", "interrupt", "nomem"])
                    steps.append(["call", i, rng.randrange(3), k, name])
                else:
                    how = rng.choice([["pickle", rng.randint(0, 5)], ["copy"], ["deepcopy"], ["reload", rng.randint(0, 5)]])
                    inside = None
                    if rng.random() < 0.3:
                        gl = ctx.golden(e, v, ctx.entries[e]["probes"][i])
                        n = gl["lines"]
                        inside = [i, rng.choice(gl["hl"]) if gl["hl"] and rng.random() < 0.5 else rng.randint(1, max(1, n))]
                    steps.append(["store", how, inside])
            if not any(s[0] == "store" and s[1][0] == "pickle" for s in steps) and rng.random() < 0.85:
                steps.append(["store", ["pickle", rng.randint(0, 5)], None])
                if rng.random() < 0.5:
                    steps.append(["call", rng.randrange(np_), rng.randrange(2), 0, ""])
            x = rng.random()
            fault = None if x < 0.6 else ["torn", round(rng.random(), 4)] if x < 0.85 else ["lost"]
            gens.append({"z": rng.randrange(len(ZY)), "steps": steps, "crash": fault})
        gens.append({"z": rng.randrange(len(ZY)), "steps": [["call", i, 0, 0, ""] for i in range(np_)], "crash": None})
        return {"E": [e], "M": [[0, v]], "gens": gens, "rs": rng.randrange(1 << 30)}

    def calls(self, plan):
        return ()

    def execute(self, plan, ctx):
        e = ctx.entries[plan["E"][0]]
        v = plan["M"][0][1]
        ver = e["versions"][v]
        ent = {k: e[k] for k in ENTRY_KEYS if k in e}
        disk = [(ver["blob"], False)]   # durable artifacts, newest last
        calls, faults, lives, fired, simt = 0, {}, 0, [], 0.0
        viol = None
        for gi, g in enumerate(plan["gens"]):
            task = {"entry": ent, "v": v, "load": disk[::-1], "probes": e["probes"], "served": ver["served"], "steps": g["steps"], "rs": plan["rs"] + gi}
            kind, r = self.z[g["z"]].ask(task)
            if kind == "hang":
                viol = violation("a server life never finished (40 s)", sig="hang")
                break
            if kind == "err":
                raise RuntimeError(r)
            calls += r["calls"]
            fired.append(r["fired"])
            for k, n in r["faults"].items():
                faults[k] = faults.get(k, 0) + n
            if r["viol"]:
                viol = r["viol"]
                viol["what"] = "life %d (hash seed %s, %s import): %s" % (gi + 1, ZY[g["z"]][0], ZY[g["z"]][1], viol["what"])
                break
            lives += r["loaded"] is not None
            new = r["artifacts"]
            for j, b in enumerate(new):
                last = j == len(new) - 1
                if last and g["crash"] and g["crash"][0] == "lost":
                    faults["lost write"] = faults.get("lost write", 0) + 1
                elif last and g["crash"] and g["crash"][0] == "torn":
                    faults["torn write"] = faults.get("torn write", 0) + 1
                    disk.append((b[:min(int(len(b) * g["crash"][1]), len(b) - 1)], True))
                else:
                    disk.append((b, False))
            if g["crash"]:
                faults["process crash"] = faults.get("process crash", 0) + 1
            disk = disk[-4:] if any(not t for _, t in disk[-4:]) else disk
            simt += 60.0
        return result(viol, faults, calls, simt, core.digest(plan["E"], plan["gens"], fired), lives >= 2, fired=fired)

    def shrink(self, plan):
        for gs in drop_each(plan["gens"]):
            if gs:
                yield dict(plan, gens=gs)
        for i, g in enumerate(plan["gens"]):
            for st in drop_each(g["steps"]):
                yield dict(plan, gens=plan["gens"][:i] + [dict(g, steps=st)] + plan["gens"][i + 1:])
            if g["crash"]:
                yield dict(plan, gens=plan["gens"][:i] + [dict(g, crash=None)] + plan["gens"][i + 1:])
            if g["z"]:
                yield dict(plan, gens=plan["gens"][:i] + [dict(g, z=0)] + plan["gens"][i + 1:])


# ---------------------------------------------------------------- C07
class C07(Prop):
    id = "C07"
    env = "none"
    runs = (300, 2500)
    entries = (60, 100)
    shards = (16, 64)
    families = ("num", "docs", "cat", "dicts", "ft")
    probes = 8
    rule = ("a run = a fresh process without site-packages in which importing any third-party package fails (absent, import error, missing shared library, ABI error), loading 1-3 artifacts in "
            "any order, every probe on first and later calls, aborted calls, storing and loading again. Non-trivial: at least one model was served.")
    components = {"real": Prop.components["real"] + ["fresh interpreter without site-packages"], "simulated": ["import failures", "clocks", "random seeds"]}

    def open(self, ctx):
        sys.path.insert(0, core.REPO)
        core.install_loader()
        core.precompile()

    def gen(self, rng, ctx):
        us = [i for i, e in enumerate(ctx.entries) if not e.get("error") and e["family"] in self.families and any("served" in v for v in e["versions"])]
        E = [rng.choice(us) for _ in range(rng.choice([1, 1, 2, 3]))]
        lives = []
        for p, e in enumerate(E):
            en = ctx.entries[e]
            vs = [i for i, v in enumerate(en["versions"]) if "served" in v]
            n = len(en["probes"])
            order = list(range(n))
            rng.shuffle(order)
            steps = []
            for i in order:
                if rng.random() < 0.12:
                    steps.append(["call", i, 0, rng.randint(1, 60), rng.choice(["deadline", "interrupt", "nomem"])])
                steps.append(["call", i, 0, 0, ""])
                if rng.random() < 0.2:
                    steps.append(["store", rng.choice([["reload", rng.randint(0, 5)], ["copy"], ["deepcopy"], ["pickle", rng.randint(0, 5)]]), None])
            steps.append(["store", ["reload", rng.randint(0, 5)], None])
            steps += [["call", rng.randrange(n), rng.randrange(4), 0, ""] for _ in range(3)]
            lives.append([p, rng.choice(vs), steps])
        return {"E": E, "lives": lives, "block": rng.choice(["absent", "absent", "import error", "os error", "abi error"]), "rs": rng.randrange(1 << 30)}

    def calls(self, plan):
        return ()

    def prepare(self, plan, ctx):
        pass

    def execute(self, plan, ctx):
        faults, calls, viol, asked, fired = {"imports blocked (%s)" % plan["block"]: 1}, 0, None, [], []
        served = 0
        blocked = False
        for p, v, steps in plan["lives"]:
            e = ctx.entries[plan["E"][p]]
            ver = e["versions"][v]
            where = "%s [%s seed %s v%s]" % (e["desc"][:200], e["spec"]["kind"], e["spec"]["seed"], v)
            if ver.get("stage") == "store":
                viol = violation("%s: accepted by conversion but cannot be stored: %s" % (where, ver["error"]), sig="store")
                break
            task = {"entry": {k: e[k] for k in ENTRY_KEYS if k in e}, "v": v, "load": [(ver["blob"], False)], "probes": e["probes"], "served": ver["served"],
                    "steps": steps, "rs": plan["rs"], "block": None if blocked else plan["block"]}
            r = life(task)
            blocked = True
            calls += r["calls"]
            served += 1
            fired += r["fired"]
            asked += r["asked"]
            for k, n in r["faults"].items():
                faults[k] = faults.get(k, 0) + n
            if r["viol"]:
                viol = r["viol"]
                viol["what"] = "third-party packages: %s%s: %s" % (plan["block"], " (asked for: %s)" % ", ".join(r["asked"]) if r["asked"] else "", viol["what"])
                break
        leaked = sorted(n for n in sys.modules if n.partition(".")[0] in THIRD)
        if leaked and viol is None:
            viol = violation("third-party modules present after serving: %s" % leaked, sig="leak")
        return result(viol, faults, calls, 0.0, core.digest(plan), served > 0, fired=fired)

    def shrink(self, plan):
        for ls in drop_each(plan["lives"]):
            if ls:
                yield dict(plan, lives=ls)
        for i, (p, v, steps) in enumerate(plan["lives"]):
            for st in drop_each(steps):
                yield dict(plan, lives=plan["lives"][:i] + [[p, v, st]] + plan["lives"][i + 1:])
        if plan["block"] != "absent":
            yield dict(plan, block="absent")


# ---------------------------------------------------------------- C08: a disk behind open()
class SimRaw(io.RawIOBase):
    """one open file: short reads, read errors, slow reads that let other threads run"""

    def __init__(self, fs, name, data, frag, fault, pause, head=0, pipe=False):
        super().__init__()
        self.pipe = pipe
        self.fs, self.fname, self.data, self.frag, self.fault, self.pause = fs, name, data, list(frag), fault, pause
        self.pos, self.reads = head, 0  # what lies before `head` has been read already by the owner
        if self.fault and head:
            self.fault = [fault[0], fault[1], fault[2] + head] + list(fault[3:])
        fs.opened.append(self)

    def readable(self):
        return True

    def seekable(self):
        return not self.pipe

    def seek(self, off, whence=0):
        if self.pipe:
            raise io.UnsupportedOperation("seek")
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def tell(self):
        if self.pipe:
            raise io.UnsupportedOperation("tell")
        return self.pos

    def readinto(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.reads += 1
        n = min(len(b), len(self.data) - self.pos)
        if self.frag:
            f = self.frag[(self.reads - 1) % len(self.frag)]
            if f < n:
                self.fs.note("short read")
                n = f
        if self.pause and self.reads in self.pause:
            s = Sched.current
            if s is not None and s.cur is not None:
                self.fs.note("slow read")
                s.switch_to(s.cur, s.cur.tid + 1)
        if self.fault and self.fault[0] in ("read", "abort") and self.pos + n > self.fault[2]:
            n = self.fault[2] - self.pos
            if n <= 0 and len(self.fault) > 3 and self.fs.recovered(self.fname):
                n = min(len(b), len(self.data) - self.pos)  # the disk is back
            elif n <= 0:
                self.fs.note("read error" if self.fault[0] == "read" else "abort during read")
                if self.fault[0] == "read":
                    raise OSError(self.fault[1], "simulated", self.fname)
                raise EXC[self.fault[1]]("simulated")
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class SimFS:
    """routes open() of the scratch directory to simulated files; anything else is untouched"""

    def __init__(self, root):
        self.root = root
        self.real_open, self.real_io_open, self.real_os_open = builtins.open, io.open, os.open
        self.opened, self.faults, self.files, self.counts = [], {}, {}, {}
        self.pauses = {}
        self.failed = set()

    def recovered(self, p):
        """a passing fault: the first time fails, later ones succeed"""
        if p in self.failed:
            return True
        self.failed.add(p)
        self.note("passing fault")
        return False

    def note(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def path(self, i):
        return os.path.join(self.root, "doc%d.txt" % i)

    def write(self, i, data):
        self.files[self.path(i)] = data
        with self.real_open(self.path(i), "wb") as f:
            f.write(data)

    def lookup(self, file):
        try:
            p = os.fspath(file)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p if p.startswith(self.root + os.sep) else None

    def fail_open(self, p):
        f = self.faults.get(p)
        if f and f[0] == "open" and not (len(f) > 3 and self.recovered(p)):
            self.note("open error")
            raise OSError(f[1], os.strerror(f[1]), p)
        if p not in self.files:
            raise FileNotFoundError(errno.ENOENT, "simulated", p)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = self.lookup(file) if not isinstance(file, int) else None
        if p is None or any(c in mode for c in "wax+"):
            return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.fail_open(p)
        raw = SimRaw(self, p, self.files[p], self.frag.get(p, ()), self.faults.get(p), self.pauses.get(p))
        if "b" in mode:
            if buffering == 0:
                return raw
            return io.BufferedReader(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        return io.TextIOWrapper(io.BufferedReader(raw), encoding, errors, newline)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.lookup(path) if isinstance(path, (str, bytes, os.PathLike)) else None
        if p is not None:
            self.fail_open(p)
        return self.real_os_open(path, flags, mode, dir_fd=dir_fd)

    def install(self):
        builtins.open = io.open = self.open
        os.open = self.os_open


HEAD = b"header: data model red blue\n\n"


class Closeable(io.StringIO):
    pass


def pack(b):
    return base64.b64encode(zlib.compress(b, 1)).decode()


def unpack(t):
    return zlib.decompress(base64.b64decode(t))


class C08(Prop):
    id = "C08"
    kinds = ("filevec",)
    entries = (14, 30)
    runs = (170, 3000)
    families = ("files",)
    rule = ("a run = 1-5 calls of a vectorizer whose documents are files on a simulated disk (by name or as caller-opened file objects): fragmented reads, open and read errors, aborts in "
            "the middle of a read, undecodable bytes, files rewritten between calls, 1-2 concurrent callers with slow reads. Expected answers come from a twin model given the same bytes in "
            "memory. Non-trivial: a file was opened and a short read, error, abort or pause happened.")
    components = {"real": Prop.components["real"] + ["io.BufferedReader / TextIOWrapper over simulated raw files"],
                  "simulated": ["open(), read(), file contents, disk errors", "thread scheduler", "clocks"]}

    def doc(self, rng, enc):
        import zoowords
        n = rng.choice([0, 1, 3, 8, 15, 15, 40])
        if rng.random() < 0.06:
            n = rng.choice([1500, 9000, 14000])
        if rng.random() < 0.006:  # longer than any buffer; mostly blanks, which every analyzer skips quickly
            return b"  ".join(x.encode(enc, "ignore") if enc in ("utf-8", "latin-1", "ascii") else x.encode() for x in
                              ["good model", " " * rng.choice([70000, 300000, 1100000]), rng.choice(zoowords.WORDS), "\n" * rng.choice([5, 66000]), "the bad end"])
        s = "".join(rng.choice(zoowords.WORDS) + rng.choice([" ", " ", "  ", ", ", "\t", "\r\n", "\n"]) for _ in range(n))
        try:
            b = s.encode(enc, "ignore")
        except LookupError:
            b = s.encode("utf-8")
        x = rng.random()
        if x < 0.08:
            b += bytes([rng.choice([0xff, 0xc3, 0x80, 0xfe, 0x81])])
        elif x < 0.14 and len(b) > 2:
            k = rng.randrange(len(b))
            b = b[:k] + bytes([rng.randrange(256)]) + b[k:]
        elif x < 0.18 and b:
            b = b[:-1]
        elif x < 0.2:
            b = b"\xef\xbb\xbf" + b
        elif x < 0.22:
            b += b"\x00\x1a good \x0c model"
        return b

    def gen(self, rng, ctx):
        us = [i for i in ctx.usable(self.families) if "twin" in ctx.entries[i]["versions"][0]]
        if not us:
            return None
        e = rng.choice(us)
        en = ctx.entries[e]
        nd = rng.randint(1, 6)
        docs = [self.doc(rng, en["encoding"]) for _ in range(nd)]
        steps = []
        for _ in range(rng.randint(1, 5)):
            th = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                th.append({"docs": [rng.randrange(nd) for _ in range(rng.choice([1, 1, 2, 3, 5]))], "m": rng.choice(en["methods"]),
                           "kind": rng.choice(["buffered", "raw", "text", "bytesio", "stringio", "pipe"]) if en["mode"] == "file" else rng.choice(["str", "str", "str", "path", "gen"]),
                           "head": rng.randint(1, len(HEAD)) if rng.random() < 0.3 else 0})
            small, big = min(range(nd), key=lambda d: len(docs[d])), False
            for x in th:  # at most one big document per step
                keep = []
                for d in x["docs"]:
                    if len(docs[d]) < 20000 or not big:
                        keep.append(d)
                    big = big or len(docs[d]) >= 20000
                x["docs"] = keep or [small]
            faults = {}
            if rng.random() < 0.45:
                d = rng.choice(th[0]["docs"])
                n = len(docs[d])
                k = rng.random()
                if k < 0.3 and en["mode"] == "filename":
                    faults[str(d)] = ["open", rng.choice([errno.ENOENT, errno.EACCES, errno.EMFILE, errno.EIO, errno.EISDIR]), 0]
                elif k < 0.8 and n:
                    faults[str(d)] = ["read", rng.choice([errno.EIO, errno.ESTALE, errno.ENOMEM, errno.EINVAL]), rng.choice([0, n - 1, rng.randrange(n)])]
                elif n:
                    faults[str(d)] = ["abort", rng.choice(["deadline", "interrupt", "nomem"]), rng.randrange(n)]
                if str(d) in faults and rng.random() < 0.4:
                    faults[str(d)].append("once")
            frag = {}
            for d in range(nd):
                if rng.random() < 0.6:
                    # reads of one byte are for short documents: reading cost is quadratic in real buffers
                    frag[str(d)] = [rng.choice([1, 2, 3, 7, 100]) if len(docs[d]) < 2000 else rng.choice([511, 4096, 8191]) for _ in range(rng.randint(1, 3))]
            pause = {str(d): sorted(rng.sample(range(1, 12), 3)) for d in range(nd) if rng.random() < 0.5} if len(th) > 1 else {}
            rew = {}
            if rng.random() < 0.35:
                d = rng.randrange(nd)
                docs_d = self.doc(rng, en["encoding"])
                if len(docs_d) < 2000:
                    rew[str(d)] = pack(docs_d)
            steps.append({"th": th, "faults": faults, "frag": frag, "pause": pause, "rewrite": rew,
                          "sw": [[rng.randrange(len(th)), rng.randint(1, 150), rng.randrange(2)] for _ in range(rng.choice([0, 2, 4]))] if len(th) > 1 else [],
                          "ab": [[0, rng.randint(1, 80), rng.choice(["deadline", "interrupt", "nomem"])]] if rng.random() < 0.12 else []})
        return {"E": [e], "M": [[0, 0]], "docs": [pack(b) for b in docs], "steps": steps, "rs": rng.randrange(1 << 30)}

    def contents(self, plan):
        """document bytes at each step (rewrites happen before the step)"""
        cur = [unpack(d) for d in plan["docs"]]
        out = []
        for st in plan["steps"]:
            for k, b in st["rewrite"].items():
                cur[int(k)] = unpack(b)
            out.append(list(cur))
        return out

    def twin_key(self, plan, x, docs):
        return ("twin", plan["E"][0], x["m"], tuple(docs[d] for d in x["docs"]))

    def calls(self, plan):
        return ()

    def prepare(self, plan, ctx):
        en = ctx.entries[plan["E"][0]]
        for st, docs in zip(plan["steps"], self.contents(plan)):
            for x in st["th"]:
                for lst in [x["docs"]] + [[d] for d in x["docs"]]:
                    y = dict(x, docs=lst)
                    key = self.twin_key(plan, y, docs)
                    if key not in ctx.cache:
                        def twin():
                            m = pickle.loads(en["versions"][0]["twin"])
                            box = []

                            def go():
                                box.append(getattr(m, x["m"])([docs[d] for d in lst]))
                                return box[0]
                            return core.outcome(go)
                        ctx.cache[key] = in_child(twin)

    def expected(self, plan, ctx, x, docs, faults):
        """("ok", answer) | ("raise", type, errno or None); a passing fault may be reported or got over"""
        ok = [self.expected_one(plan, ctx, x, docs, faults)]
        lasting = {d: f for d, f in faults.items() if len(f) < 4}
        if lasting != faults:
            ok.append(self.expected_one(plan, ctx, x, docs, lasting))
        return ok

    def expected_one(self, plan, ctx, x, docs, faults):
        for d in x["docs"]:
            f = faults.get(str(d))
            if f and f[0] == "open":
                return ("raise", None, f[1])
            if f and f[2] < len(docs[d]):
                return ("raise", None, f[1]) if f[0] == "read" else ("raise", EXC[f[1]].__name__, None)
            one = ctx.cache[self.twin_key(plan, dict(x, docs=[d]), docs)]
            if one[0] == "raise":
                return ("raise", one[1], None)
        return ctx.cache[self.twin_key(plan, x, docs)]

    def execute(self, plan, ctx):
        import pathlib
        import tempfile
        setup_run(plan)
        en = ctx.entries[plan["E"][0]]
        root = tempfile.mkdtemp(prefix="c08-", dir=ctx.scratch)
        fs = SimFS(root)
        fs.frag = {}
        model = self.load(plan, ctx)[0]
        fs.install()
        bad, nc, log = [], 0, []
        enc, errs, mode = en["encoding"], en["errors"], en["mode"]
        try:
            for si, (st, docs) in enumerate(zip(plan["steps"], self.contents(plan))):
                for i, b in enumerate(docs):
                    if fs.files.get(fs.path(i)) != b:
                        fs.write(i, b)
                fs.faults = {fs.path(int(k)): f for k, f in st["faults"].items()}
                fs.frag = {fs.path(int(k)): f for k, f in st["frag"].items()}
                fs.pauses = {fs.path(int(k)): set(f) for k, f in st["pause"].items()}
                fs.opened, fs.failed = [], set()
                res = [None] * len(st["th"])
                owned = [[] for _ in st["th"]]

                def obj(x, d, own):
                    p = fs.path(d)
                    if mode == "filename":
                        return pathlib.Path(p) if x["kind"] == "path" else p
                    k, head = x["kind"], HEAD[:x.get("head", 0)]
                    if head:
                        fs.note("file object in mid-file")
                    if k == "pipe":
                        fs.note("file object that cannot seek")
                    raw = SimRaw(fs, p, head + docs[d], fs.frag.get(p, ()), fs.faults.get(p), fs.pauses.get(p), len(head), k == "pipe")
                    fs.opened.pop()  # caller-owned
                    if k == "bytesio" and not fs.faults.get(p):
                        o = io.BytesIO(head + docs[d])
                        o.seek(len(head))
                    elif k == "stringio" and not fs.faults.get(p) and decodable(docs[d], enc, errs):
                        o = io.StringIO(head.decode() + docs[d].decode(enc, errs), newline="")
                        o.seek(len(head))
                    elif k == "text" and not head and not fs.faults.get(p) and reads_as_decoded(docs[d], enc, errs):
                        o = io.TextIOWrapper(io.BufferedReader(raw), enc, errs, newline="")
                    elif k == "raw":
                        o = raw
                    else:
                        o = io.BufferedReader(raw)
                    own.append(o)
                    return o

                def body(i):
                    def run():
                        x = st["th"][i]
                        src = [obj(x, d, owned[i]) for d in x["docs"]]
                        if x["kind"] == "gen":
                            src = (s for s in src)
                        try:
                            r = getattr(model, x["m"])(src)
                            res[i] = (("ok", core.canon(r)), None)
                        except BaseException as ex:
                            from sched import SimStop
                            if isinstance(ex, SimStop):
                                raise
                            res[i] = (("raise", type(ex).__name__), ex)
                    return run
                s = Sched([body(i) for i in range(len(res))], switch=st["sw"], abort=st["ab"],
                          cap=20000000 + 2000 * sum(len(docs[d]) for x in st["th"] for d in x["docs"]))
                s.run()
                log.append((s.trace, s.fired))
                for x in s.fired:
                    fs.note("abort:" + x[2])
                if s.problem:
                    bad.append(violation("call stuck: %s" % s.problem, sig="stuck"))
                    break
                for i, x in enumerate(st["th"]):
                    nc += 1
                    (out, ex) = res[i]
                    exps = self.expected(plan, ctx, x, docs, st["faults"])
                    exp = exps[0]
                    desc = "%s [filevec seed %s, input=%s, %s/%s] %s step %d" % (en["desc"][:150], en["spec"]["seed"], mode, enc, errs, core.req_key(x), si)
                    hit = any(f[0] == i for f in s.fired)
                    if hit and out[0] == "raise":
                        pass
                    elif any(out == v if v[0] == "ok" else out[0] == "raise" and self.same_error(ex, v) for v in exps):
                        pass
                    elif len(exps) > 1 and exps[-1][0] == "ok" and out[0] == "ok":
                        bad.append(violation("%s: got %s after a passing fault, the same bytes in memory give %s" % (desc, short(out), short(exps[-1])), sig="answer"))
                    elif exp[0] == "ok":
                        if out != exp:
                            bad.append(violation("%s: got %s, same bytes in memory give %s" % (desc, short(out), short(exp)), sig="answer"))
                    elif out[0] == "ok":
                        bad.append(violation("%s: answered although %s" % (desc, "a document cannot be read (errno %s)" % exp[2] if len(exp) > 2 and exp[2] else "it must raise %s" % exp[1]), sig="swallowed"))
                    elif not self.same_error(ex, exp):
                        bad.append(violation("%s: raised %s(%s), expected %s" % (desc, out[1], short(str(ex), 100), exp[1:]), sig="other error"))
                    for o in owned[i]:
                        if o.closed:
                            bad.append(violation("%s: a caller's file object was closed" % desc, sig="closed"))
                left = [r.fname for r in fs.opened if not r.closed]
                if left:
                    bad.append(violation("%s: %d of %d opened files left open after the call (outcome %s)" % (desc, len(left), len(fs.opened), res[0][0][0]), sig="open"))
                if bad:
                    break
        finally:
            builtins.open, io.open, os.open = fs.real_open, fs.real_io_open, fs.real_os_open
            for n in os.listdir(root):
                os.unlink(os.path.join(root, n))
            os.rmdir(root)
        return result(bad[0] if bad else None, fs.counts, nc, 0.0, core.digest(plan, log), bool(fs.counts), fired=[x[1] for x in log])

    @staticmethod
    def same_error(ex, exp):
        seen = 0
        while ex is not None and seen < 6:
            if len(exp) > 2 and exp[2] is not None:
                if isinstance(ex, OSError) and ex.errno == exp[2]:
                    return True
            elif type(ex).__name__ == exp[1]:
                return True
            ex = ex.__cause__ or ex.__context__
            seen += 1
        return False

    def shrink(self, plan):
        # rewrites belong to the history of contents: fold them in when a step goes
        for i in range(len(plan["steps"])):
            if len(plan["steps"]) > 1:
                rest = [dict(s) for s in plan["steps"]]
                gone = rest.pop(i)
                if i < len(rest):
                    rest[i]["rewrite"] = dict(gone["rewrite"], **rest[i]["rewrite"])
                yield dict(plan, steps=rest)
        for i, st in enumerate(plan["steps"]):
            def put(x):
                return dict(plan, steps=plan["steps"][:i] + [x] + plan["steps"][i + 1:])
            if len(st["th"]) > 1:
                yield put(dict(st, th=st["th"][:1], sw=[]))
                yield put(dict(st, th=st["th"][1:], sw=[], ab=[]))
            for k in ("faults", "frag", "pause", "rewrite"):
                for key in st[k]:
                    d = dict(st[k])
                    d.pop(key)
                    yield put(dict(st, **{k: d}))
            if st["ab"]:
                yield put(dict(st, ab=[]))
            for sw in drop_each(st["sw"]):
                yield put(dict(st, sw=sw))
            for j, x in enumerate(st["th"]):
                for ds in drop_each(x["docs"]):
                    if ds:
                        yield put(dict(st, th=st["th"][:j] + [dict(x, docs=ds)] + st["th"][j + 1:]))


def reads_as_decoded(b, enc, errs):
    """a caller's text-mode file gives the text that decoding the bytes at once gives (UTF-16 without a byte
    order mark, for one, is refused by text-mode files only)"""
    try:
        return io.TextIOWrapper(io.BytesIO(b), enc, errs, newline="").read() == b.decode(enc, errs)
    except Exception:
        return False


def decodable(b, enc, errs):
    try:
        b.decode(enc, errs)
        return True
    except Exception:
        return False


PROPS = {p.id: p for p in (C06, C07, C08)}

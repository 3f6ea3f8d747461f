"""
Deterministic thread scheduler.

Simulated threads are real threads that are parked on a private lock; exactly one runs at a time.
A trace function reports every line (or every bytecode) executed in the packages under test; at
each such *event* the plan decides - and nothing else does - whether another thread continues,
whether an exception is delivered, or whether an observer runs.

A plan is plain data:   switch = [[tid, k, to], ...]   after thread tid's k-th event run `to`
                        abort  = [[tid, k, name], ...] deliver exception `name` at that event
so one plan is one exactly repeatable execution.
"""
import _thread
import os
import sys
import threading
import time

from core import PKG_DIRS

_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_join = threading.Thread.join


class Deadline(Exception):
    """request deadline delivered into a call"""


class SimStop(BaseException):
    """ends a simulated thread: deadlock or step cap"""


EXC = {"deadline": Deadline, "interrupt": KeyboardInterrupt, "nomem": MemoryError, "exit": SystemExit}

TOOL = 3
_mon = sys.monitoring
_traced = {}
_mode = None
_handler = None   # the active Sched or Counter


def traced(code):
    r = _traced.get(code)
    if r is None:
        f = code.co_filename
        r = f.startswith(PKG_DIRS) and "/tests/" not in f and code.co_name != "<module>"
        _traced[code] = r
    return r


def _on_start(code, offset):
    if traced(code):
        _mon.set_local_events(TOOL, code, _mode)
    return _mon.DISABLE


def _on_line(code, line):
    h = _handler
    if h is not None:
        h.on_line(code, line)


def _on_op(code, offset):
    h = _handler
    if h is not None:
        h.on_op(code, offset)


def monitor(mode):
    """mode: 'line', 'op', 'both' or 'off' - which events of package code are reported from now on"""
    global _mode
    ev = _mon.events
    m = {"line": ev.LINE, "op": ev.INSTRUCTION, "both": ev.LINE | ev.INSTRUCTION, "off": 0}[mode]
    if _mode is None:
        _mon.use_tool_id(TOOL, "sim")
        _mon.register_callback(TOOL, ev.PY_START, _on_start)
        _mon.register_callback(TOOL, ev.PY_RESUME, _on_start)
        _mon.register_callback(TOOL, ev.LINE, _on_line)
        _mon.register_callback(TOOL, ev.INSTRUCTION, _on_op)
    if m != _mode:
        _mode = m
        _mon.set_events(TOOL, 0)
        for code, yes in _traced.items():
            if yes:
                _mon.set_local_events(TOOL, code, m)
        _mon.set_events(TOOL, ev.PY_START | ev.PY_RESUME)


WRITES = {"STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF", "STORE_SLICE"}
MUTATORS = {"append", "extend", "insert", "pop", "clear", "update", "setdefault", "remove", "sort", "reverse", "popitem", "add", "discard",
            "__setitem__", "__dict__", "setattr", "move_to_end", "appendleft", "popleft"}
_writes = {}


def _write_sites(code):
    """(bytecode offsets following a write to shared-capable state, lines containing one)"""
    r = _writes.get(code)
    if r is None:
        import dis
        offs, lines, line, pend = set(), set(), None, False
        for ins in dis.get_instructions(code):
            if ins.starts_line:
                line = ins.starts_line
            if pend:
                offs.add(ins.offset)
                pend = False
            if ins.opname in WRITES or (ins.opname in ("LOAD_ATTR", "LOAD_METHOD", "LOAD_GLOBAL", "LOAD_NAME") and str(ins.argval) in MUTATORS):
                pend = True
                lines.add(line)
        r = _writes[code] = (offs, lines)
    return r


CHECKS = ("CALL", "RESUME", "JUMP_BACKWARD", "BEFORE_WITH", "BINARY_OP", "BINARY_SUBSCR", "STORE_SUBSCR", "LOAD_ATTR", "COMPARE_OP", "CONTAINS_OP", "FOR_ITER",
          "BUILD_", "LIST_", "IMPORT_", "YIELD_VALUE", "SEND", "UNPACK_", "FORMAT_VALUE", "STORE_ATTR", "RAISE_VARARGS", "CALL_FUNCTION_EX")
_deliv = {}


def _flow(code):
    """instructions by offset, their predecessors and their chain of exception handlers"""
    r = _deliv.get(code)
    if r is None:
        import dis
        ins = list(dis.get_instructions(code))
        by = {i.offset: i for i in ins}
        table = dis._parse_exception_table(code)

        def direct(o):
            for e in table:
                if e.start <= o < e.end:
                    return e.target
            return None

        def chain(o):
            c, h = [], direct(o)
            while h is not None and h not in c:
                c.append(h)
                h = direct(h)
            return c
        pred = {}
        for a, b in zip(ins, ins[1:]):
            if a.opname not in ("RETURN_VALUE", "RETURN_CONST", "RERAISE", "RAISE_VARARGS", "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT"):
                pred.setdefault(b.offset, []).append(a.offset)
        for i in ins:
            if "JUMP" in i.opname or i.opname in ("FOR_ITER", "SEND"):
                if isinstance(i.argval, int):
                    pred.setdefault(i.argval, []).append(i.offset)
        targets = {e.target for e in table}
        r = _deliv[code] = (by, pred, {o: chain(o) for o in by}, targets, {})
    return r


def deliverable(code, off):
    """
    Can an exception that is not the program's own surface before this instruction?  The interpreter
    delivers interrupts after calls, on function entry and on backward jumps, and an allocation fails
    inside the instruction that allocates - in each case under that instruction's exception handlers.
    So nothing surfaces between the last such instruction of a with or try body and the code that
    cleans up, nor between the start of a handler and its first such instruction.
    """
    by, pred, chain, targets, memo = _flow(code)
    r = memo.get(off)
    if r is None:
        r, seen, todo = True, set(), [off]
        own = chain.get(off, [])
        while todo and r:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            if o in targets:
                r = False
                break
            for p in pred.get(o, ()):
                h = chain[p]
                if h and h[0] not in own:
                    r = False  # p is inside a protected body that off has left
                    break
                if not by[p].opname.startswith(CHECKS):
                    todo.append(p)
        memo[off] = r
    return r


class Thr:
    __slots__ = ("tid", "fn", "lock", "n", "state", "switch", "abort", "value", "error", "stop", "wait", "aux", "ident")

    def __init__(self, tid, fn, aux=False):
        self.tid, self.fn, self.aux = tid, fn, aux
        self.lock = _real_lock()
        self.lock.acquire()
        self.n = 0
        self.state = "ready"  # ready | blocked | done
        self.switch, self.abort = {}, {}
        self.value = self.error = self.stop = self.wait = self.ident = None


class Sched:
    current = None  # the active scheduler of this process

    def __init__(self, fns, switch=(), abort=(), opcodes=False, cap=400000, observer=None, first=0, quantum=0):
        self.thr = [Thr(i, f) for i, f in enumerate(fns)]
        for tid, k, to in switch:
            self.thr[tid].switch[k] = to
        for tid, k, name in abort:
            self.thr[tid].abort[k] = name
        self.opcodes = opcodes
        self.cap = cap
        self.observer = observer
        self.first = first
        self.total = 0
        self.cur = None
        self.main = _real_lock()
        self.main.acquire()
        self.idents = {}
        self.trace = []      # [tid, event, place, to] of every switch that took place
        self.fired = []      # [tid, event, name, place] of every delivered exception
        self.problem = None
        self.code = None     # (code, line or offset) of the latest event
        self.quantum = quantum or cap  # fairness: a thread running longer than this makes way
        self.since = 0
        self.quiet = False   # observers set this while they run package code

    # ---------------------------------------------------------------- events
    def on_line(self, code, where):
        self._event(code, where)

    on_op = on_line

    def _event(self, code, where):
        t = self.cur
        if t is None or t.ident != _thread.get_ident() or self.quiet:
            return
        t.n += 1
        self.total += 1
        if self.problem is not None:
            raise SimStop()
        if self.total > self.cap:
            self._stop("no progress: %d steps" % self.cap)
            raise SimStop()
        self.code = (code, where)
        if self.observer is not None:
            self.observer(self, t, code, where)
        self.since += 1
        if t.switch:
            to = t.switch.get(t.n)
            if to is not None:
                self.switch_to(t, to)
        if self.since > self.quantum:
            self.switch_to(t, t.tid + 1)
            self.since = 0
        if t.abort:
            name = t.abort.pop(t.n, None)
            if name is not None:
                f = sys._getframe(2)
                while f is not None and f.f_code is not code:
                    f = f.f_back
                if f is not None and not deliverable(code, f.f_lasti):
                    t.abort.setdefault(t.n + 1, name)
                    return
                self.fired.append([t.tid, t.n, name, self._where(code, where)])
                raise EXC[name]("simulated")

    def _where(self, code, where):
        f = code.co_filename
        for d in PKG_DIRS:
            if f.startswith(d):
                f = f[len(os.path.dirname(d[:-1])) + 1:]
        if self.opcodes:
            line = next((ln for a, b, ln in code.co_lines() if a <= where < b), None)
            return "%s:%s:%s+%d" % (f, line, code.co_name, where)
        return "%s:%s:%s" % (f, where, code.co_name)

    def _stop(self, why):
        if self.problem is None:
            self.problem = why

    # ---------------------------------------------------------------- switching
    def _pick(self, to):
        n = len(self.thr)
        for i in range(n):
            c = self.thr[(to + i) % n]
            if c.state == "ready":
                return c
        return None

    def switch_to(self, t, to):
        c = self._pick(to)
        if c is None or c is t:
            return
        self.trace.append([t.tid, t.n, self._where(*self.code) if self.code else "?", c.tid])
        self.cur = c
        self.since = 0
        c.lock.release()
        t.lock.acquire()

    def block(self, t, obj):
        """current thread waits for obj (a SimLock); returns when scheduled again"""
        t.state, t.wait = "blocked", obj
        c = self._pick(t.tid + 1)
        if c is None:
            self._stop("deadlock: every unfinished thread waits for a lock")
            t.state = "ready"
            raise SimStop()
        self.trace.append([t.tid, t.n, "blocked", c.tid])
        self.cur = c
        c.lock.release()
        t.lock.acquire()
        if self.problem is not None:
            t.state = "ready"
            raise SimStop()

    def wake(self, obj):
        for t in self.thr:
            if t.state == "blocked" and t.wait is obj:
                t.state, t.wait = "ready", None

    def spawn(self, fn):
        """a thread started by package code becomes a simulated thread"""
        t = Thr(len(self.thr), fn, aux=True)
        self.thr.append(t)
        _real_start(self._body, (t,))
        return t

    def _body(self, t):
        t.lock.acquire()
        t.ident = _thread.get_ident()
        self.idents[t.ident] = t
        try:
            if not t.aux:
                threading._active.pop(t.ident, None)
                threading._DummyThread()  # each caller has a thread object of its own (an identity may be an earlier thread's)
            t.value = t.fn()
        except SimStop:
            t.stop = True
        except BaseException as ex:  # harness code of a thread must handle its own errors
            if not t.aux:
                t.error = ex
        finally:
            if not t.aux:
                threading._active.pop(t.ident, None)
            t.state = "done"
            if all(b.state == "done" for b in self.thr if not b.aux):
                self.cur = None
                self.main.release()
                return
            if self.problem is not None:
                for b in self.thr:
                    if b.state == "blocked":
                        b.state = "ready"
            c = self._pick(t.tid + 1)
            if c is None:
                self._stop("deadlock: a lock is never released")
                for b in self.thr:
                    if b.state == "blocked":
                        b.state = "ready"
                c = self._pick(0)
            self.cur = c
            c.lock.release()

    def run(self):
        global _handler
        monitor("op" if self.opcodes else "line")
        Sched.current = self
        _handler = self
        try:
            for t in list(self.thr):
                _real_start(self._body, (t,))
            c = self.thr[self.first % len(self.thr)]
            self.cur = c
            c.lock.release()
            self.main.acquire()
        finally:
            Sched.current = None
            _handler = None
        for t in self.thr:
            if t.error is not None:
                raise t.error
        return [t.value for t in self.thr if not t.aux]


class Counter:
    """Runs one call alone, counting its events and noting those right after a write."""

    def __init__(self):
        self.lines = self.ops = 0
        self.hot_lines, self.hot_ops = [], []
        self.odd_lines, self.watch = [], None

    def on_line(self, code, line):
        self.lines += 1
        if self.watch is not None and len(self.odd_lines) < 400 and self.watch():
            self.odd_lines.append(self.lines)
        if line in _write_sites(code)[1] and len(self.hot_lines) < 400:
            self.hot_lines.append(self.lines)

    def on_op(self, code, off):
        self.ops += 1
        if off in _write_sites(code)[0] and len(self.hot_ops) < 400:
            self.hot_ops.append(self.ops)

    def __call__(self, fn):
        global _handler
        monitor("both")
        _handler = self
        try:
            return fn()
        finally:
            _handler = None


# -------------------------------------------------------------------- locks and time
class SimLock:
    """stands in for threading.Lock: cooperates with the scheduler when used by a simulated thread"""
    _reentrant = False

    def __init__(self):
        self._owner, self._count, self._real = None, 0, _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        s = Sched.current
        t = s.idents.get(me) if s is not None else None
        if t is None:
            ok = self._real.acquire(blocking, timeout)
        else:
            ok = self._real.acquire(False)
            while not ok and blocking:
                if timeout is not None and timeout >= 0:
                    Clock.advance(timeout)
                    s.switch_to(t, t.tid + 1)
                    ok = self._real.acquire(False)
                    break
                s.block(t, self)
                ok = self._real.acquire(False)
        if ok:
            self._owner, self._count = me, 1
        return ok

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()
        s = Sched.current
        if s is not None:
            s.wake(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._count, self._real = None, 0, _real_lock()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


class SimRLock(SimLock):
    _reentrant = True


class Clock:
    """virtual time of the simulated process; the real clocks are used while inactive"""
    active = False
    view = None     # what a clock shows instead of the true time: view(clock, true value)
    wall = 1.7e9
    mono = 1000.0
    cpu = 1.0

    @classmethod
    def start(cls, wall=1.7e9, mono=1000.0):
        cls.active, cls.wall, cls.mono, cls.cpu, cls.view = True, wall, mono, 1.0, None

    @classmethod
    def read(cls, attr):
        v = getattr(cls, attr)
        return cls.view(attr, v) if cls.view is not None else v

    @classmethod
    def advance(cls, dt, step=0.0):
        cls.wall += dt + step
        cls.mono += dt


_clocks = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time",
                                         "time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns", "thread_time_ns")}
_attr = {"time": "wall", "monotonic": "mono", "perf_counter": "mono", "process_time": "cpu", "thread_time": "cpu"}
real_monotonic = time.monotonic


def _sim_clock(name):
    real = _clocks[name]
    attr = _attr[name[:-3] if name.endswith("_ns") else name]
    if name.endswith("_ns"):
        def now():
            return int(round(Clock.read(attr) * 1e9)) if Clock.active else real()
    else:
        def now():
            return Clock.read(attr) if Clock.active else real()
    now.__name__ = name
    return now


def sim_sleep(seconds):
    s = Sched.current
    t = s.idents.get(_thread.get_ident()) if s is not None else None
    if t is None:
        return None
    Clock.advance(max(seconds, 0))
    s.switch_to(t, t.tid + 1)


def sim_start(fn, args, kwargs={}):
    s = Sched.current
    if s is None or _thread.get_ident() not in s.idents:
        return _real_start(fn, args, kwargs)
    return s.spawn(lambda: fn(*args, **kwargs)).tid + 10 ** 9


def sim_join(self, timeout=None):
    s = Sched.current
    t = s.idents.get(_thread.get_ident()) if s is not None else None
    if t is None:
        return _real_join(self, timeout)
    for _ in range(100000):
        if self._is_stopped or not any(x.aux and x.state != "done" and x.ident == self._ident for x in s.thr):
            return None
        if s._pick(t.tid + 1) is t:
            break
        s.switch_to(t, t.tid + 1)


def install():
    """Call after all harness imports and before importing the packages under test."""
    import queue
    threading.Lock = _thread.allocate_lock = _thread.allocate = threading._allocate_lock = SimLock
    threading.RLock = _thread.RLock = SimRLock
    _thread.start_new_thread = threading._start_new_thread = sim_start
    threading.Thread.join = sim_join
    queue.SimpleQueue = queue._PySimpleQueue
    time.sleep = sim_sleep
    for n in _clocks:
        setattr(time, n, _sim_clock(n))
    threading._time = time.monotonic
    queue.time = time.monotonic
    if "timeit" in sys.modules:
        sys.modules["timeit"].default_timer = time.perf_counter


# -------------------------------------------------------------------- plan generation
def gen_switches(rng, counts, hots, nthreads, style=None):
    """
    counts[t]: events of thread t when alone; hots[t]: events just after writes.
    Returns (style, [[tid, k, to], ...]).
    """
    style = style or rng.choice(["few", "few", "few", "hot", "hot", "hot", "some", "dense", "serial", "lockstep"])
    out = []

    def other(t):
        o = rng.randrange(nthreads - 1)
        return o if o < t else o + 1

    if nthreads < 2:
        return style, []
    if style in ("few", "hot"):
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
            t = rng.randrange(nthreads)
            if not counts[t]:
                continue
            if style == "hot" and hots[t]:
                k = min(max(1, rng.choice(hots[t]) + rng.choice([0, 0, 0, 1, -1, 2, 3])), counts[t])
            else:
                k = rng.randint(1, counts[t])
            out.append([t, k, other(t)])
    elif style == "some":
        for t in range(nthreads):
            for _ in range(rng.randint(2, 12)):
                if counts[t]:
                    out.append([t, rng.randint(1, counts[t]), other(t)])
    elif style == "dense":
        p = rng.choice([0.05, 0.2, 0.5])
        for t in range(nthreads):
            for k in range(1, min(counts[t], 600) + 1):
                if rng.random() < p:
                    out.append([t, k, other(t)])
    elif style == "lockstep":
        for t in range(nthreads):
            for k in range(1, min(counts[t], 1500) + 1):
                out.append([t, k, (t + 1) % nthreads])
    # at most one decision per event
    seen, uniq = set(), []
    for s in out:
        if (s[0], s[1]) not in seen:
            seen.add((s[0], s[1]))
            uniq.append(s)
    return style, uniq

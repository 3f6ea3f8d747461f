"""Helpers of the demonstrations: run something in the middle of a call, or abort a call in the middle."""
import sys
import threading

PACKAGES = ("pure_sklearn", "pure_fasttext")


class Abort(BaseException):
    pass


def _traced(call, at, action):
    """runs call() and performs action() at the at-th line executed in the packages"""
    left = [at]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                frame.f_trace = None
                action()
        return local

    def tracer(frame, event, arg):
        if left[0] > 0 and any(p in frame.f_code.co_filename for p in PACKAGES):
            return local

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        out = call()
    finally:
        sys.settrace(old)
    return left[0] <= 0, out


def interleave(call, other, limit=2000):
    """yields (result of call, result of other) with the whole of other() run, in another thread, after
    each possible line of call()"""
    for at in range(1, limit):
        box = []

        def action():
            t = threading.Thread(target=lambda: box.append(attempt(other)), daemon=True)
            t.start()
            t.join(20)
        (hit, got) = _traced(lambda: attempt(call), at, action)
        if not hit:
            return
        yield got, (box[0] if box else "blocked")


def aborts(call, limit=2000, exc=Abort):
    """aborts call() at each possible line, yielding after each abort"""
    for at in range(1, limit):
        def action():
            raise exc()
        try:
            hit, _ = _traced(call, at, action)
        except exc:
            yield at
            continue
        if not hit:
            return


def attempt(call):
    try:
        return ("answer", call())
    except Exception as e:
        return ("error", type(e).__name__)


def within(seconds, call):
    """result of call() in another thread, or 'blocked'"""
    box = []
    t = threading.Thread(target=lambda: box.append(attempt(call)), daemon=True)
    t.start()
    t.join(seconds)
    return box[0] if box else "blocked"

"""
A server host: a bare interpreter with its own hash seed.  Every task (one life of one server
process) runs in a forked child.  Tasks arrive as length-prefixed pickles on stdin.
argv: eager|lazy      (lazy: the packages are first imported by loading an artifact)
"""
import os
import pickle
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core
import runner
import sched
import props_store

if __name__ == "__main__":
    sched.install()
    if sys.argv[1] == "eager":
        core.import_packages()
    else:
        sys.path.insert(0, core.REPO)
        core.install_loader()
        core.precompile()
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    while True:
        h = inp.read(4)
        if len(h) < 4:
            break
        task = pickle.loads(inp.read(struct.unpack("<I", h)[0]))
        try:
            res = ("ok", runner.in_child(lambda: props_store.life(task), 40.0))
        except runner.HarnessTimeout:
            res = ("hang", None)
        except Exception as ex:
            res = ("err", str(ex))
        b = pickle.dumps(res)
        out.write(struct.pack("<I", len(b)) + b)
        out.flush()

"""A worker: imports everything once, then runs jobs from stdin (length-prefixed pickles).

Environment: SIM_REPO (the tree under test), SIM_SCRATCH (scratch directory), PYTHONHASHSEED.
"""
import os
import pickle
import struct
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ["SIM_REPO"]
SCRATCH = os.environ["SIM_SCRATCH"]


def boot():
    sys.path[:0] = [HERE, REPO]
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(3000)
    os.environ["HOME"] = "/sim/home"
    import warnings
    warnings.simplefilter("ignore")
    import seams
    import world
    seams.install_early()
    import requests, lxml.etree, lxml.html, pandas, fs, fs.osfs, fs.copy, urllib3, html5lib  # noqa
    import pyspark  # noqa
    import net  # noqa
    seams.install_late()
    import machine
    os.makedirs(os.path.join(SCRATCH, "boot", "home"), exist_ok=True)
    machine.set_base(SCRATCH)
    w = world.World(os.path.join(SCRATCH, "boot"), world.Plan(None, script={}), 0)
    seams.set_world(w)
    import brel  # noqa
    import brel.utils  # noqa
    if not os.path.abspath(brel.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("brel was imported from %s, not from %s" % (brel.__file__, REPO))
    seams.seed_identity_hashes()
    seams.set_world(None)
    import gc
    gc.collect()
    gc.freeze()
    import registry
    return registry


def main():
    inp, out = os.dup(0), os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(2, 1)
    os.environ["OPENBLAS_NUM_THREADS"] = "1"

    def read(n):
        b = bytearray()
        while len(b) < n:
            x = rd(inp, n - len(b))
            if not x:
                sys.exit(0)
            b += x
        return bytes(b)

    rd, wr = os.read, os.write

    def send(obj):
        data = pickle.dumps(obj)
        data = memoryview(struct.pack("<Q", len(data)) + data)
        while len(data):
            data = data[wr(out, data):]

    try:
        registry = boot()
    except BaseException:
        send({"fatal": traceback.format_exc()})
        return
    send({"ready": True})
    while True:
        job = pickle.loads(read(struct.unpack("<Q", read(8))[0]))
        try:
            res = registry.run(job)
        except BaseException:
            res = {"harness": traceback.format_exc()}
        send(res)


if __name__ == "__main__":
    main()

"""One run: a simulated machine with a disk, a network and a history of processes.

Runs inside a worker (a zygote with everything imported).  Every simulated process life is a
fork of the zygote, so it starts with fresh memory; only the simulated disk and the servers
survive it.
"""
import ctypes
import gc
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import threading
import traceback

import gen
import net
import seams
import snap
import truth
import world as W

LIBC = ctypes.CDLL(None)
BASE = None             # scratch directory of this worker
WALL_LIMIT = 60.0       # real seconds after which a process life counts as endless
MEMORY_LIMIT = 5 << 30  # of the address space of a process life
DIRS = ("home", "docs", "tmp")


def set_base(path):
    global BASE
    BASE = path


def rmtree(path):
    for top, dirs, files in os.walk(path, topdown=False):
        for n in files:
            seams.real["unlink"](os.path.join(top, n))
        for n in dirs:
            p = os.path.join(top, n)
            if os.path.islink(p):
                seams.real["unlink"](p)
            else:
                seams.real["rmdir"](p)


class Machine:
    def __init__(self, job, quiet=False):
        self.job = job
        self.cfg = dict(job.get("cfg") or {})
        root = os.path.join(BASE, "m")
        seams.set_world(None)
        if os.path.isdir(root):
            rmtree(root)
        for d in DIRS:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        seed = job.get("seed", 0)
        script = job.get("script")
        if quiet:
            plan = W.Plan(None, script={})
        elif script is not None:
            plan = W.Plan(None, script=script, config=job.get("rates"))
        else:
            plan = W.Plan("plan %s" % seed, config=job.get("rates"))
        self.w = W.World(root, plan, seed, self.cfg)
        if "identity" in self.cfg:
            self.w.hash_rng = random.Random(self.cfg["identity"])
        if "cwd" in self.cfg:
            self.w.cwd = self.cfg["cwd"]
            os.makedirs(self.w.real(self.w.cwd), exist_ok=True)
        if quiet:
            self.w.faults_on = False
        self.w.start_clock = self.w.clock = self.cfg.get("t0", W.T0)
        seams.set_world(self.w)
        self.lives = 0
        self.notes = []         # the history of this run, for people

    # ---- the outside of the machine ----------------------------------------------------------
    def serve(self, uri, body, **k):
        self.w.servers[net.key(uri)] = net.Resource(body, **k)

    def unserve(self, uri):
        self.w.servers.pop(net.key(uri), None)

    def put(self, vpath, body):
        r = self.w.real(vpath)
        os.makedirs(os.path.dirname(r), exist_ok=True)
        with seams.real["open"](r, "wb") as f:
            f.write(body)
        seams.real["utime"](r, (self.w.wall(), self.w.wall()))

    def get(self, vpath):
        return seams._read_real(self.w.real(vpath))

    def install(self, u):
        for uri, body in u.servers.items():
            self.serve(uri, body)
        for p, body in u.docs.items():
            self.put(p, body)

    def tree(self, skip=()):
        """every file and folder of the simulated disk: path -> content"""
        out = {}
        for top, dirs, files in os.walk(self.w.root):
            v = "/sim" + top[len(self.w.root):]
            if any(v == s or v.startswith(s + "/") for s in skip):
                continue
            out[v + "/"] = None
            for n in files:
                p = os.path.join(top, n)
                out[v + "/" + n] = os.readlink(p).encode() if os.path.islink(p) else seams._read_real(p)
        return out

    def advance(self, seconds):
        self.w.clock += seconds
        self.note("%.0f seconds pass" % seconds)

    def note(self, text):
        self.notes.append(text)

    def calm(self):
        """the faults stop"""
        w = self.w
        w.faults_on = False
        w.disk_full = w.disk_dead = False
        w.down_hosts = {}
        self.note("the faults stop")

    def network_down(self, down=True):
        w = self.w
        w.servers_saved = getattr(w, "servers_saved", None) or w.servers
        w.servers = {} if down else w.servers_saved
        if not down:
            w.servers_saved = None
        self.note("the network goes " + ("down" if down else "up"))

    # ---- process lives -------------------------------------------------------------------------
    def life(self, bodies, after=None, before=None):
        """Run actors [(name, process, fn)] in a fresh process. `before` are actors that run there first
        (if one of them fails the others do not start); `after(results)` runs there too, when all
        are done, outside the simulation. Returns ({name: (status, value)}, after's value)."""
        w = self.w
        w.incarnation += 1
        self.lives += 1
        if "gaps" in self.cfg and self.lives > 1:
            g = random.Random("gap %s %d" % (self.cfg["gaps"], self.lives))
            if g.random() < 0.5:
                self.advance(g.choice((1, 70, 4000, 90000, 700000, 3000000, 35000000)))
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                LIBC.prctl(1, signal.SIGKILL)      # dies with the worker
                seams.real["os_close"](r)
                out = self._child(bodies, after, before)
                data = pickle.dumps(out)
                seams._write_all(wr, struct.pack("<Q", len(data)) + data)
            except BaseException:
                try:
                    data = pickle.dumps(("harness", traceback.format_exc()))
                    seams._write_all(wr, struct.pack("<Q", len(data)) + data)
                except BaseException:
                    pass
            finally:
                os._exit(0)
        seams.real["os_close"](wr)
        deadline = seams.real["monotonic"]() + WALL_LIMIT
        buf = bytearray()
        timed_out = False
        while True:
            left = deadline - seams.real["monotonic"]()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                timed_out = True
                break
            b = seams.real["os_read"](r, 1 << 20)
            if not b:
                break
            buf += b
        seams.real["os_close"](r)
        if timed_out:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        if timed_out:
            w.flag("hang", "a process made no progress for %d seconds of real time" % WALL_LIMIT)
            w.journal, w.dirty = [], {}
            return {n: ("hang", "no progress") for n, _, _ in bodies}, None
        if len(buf) < 8 or len(buf) - 8 != struct.unpack("<Q", bytes(buf[:8]))[0]:
            # the interpreter itself died (a stack overflow in C code, for example)
            w.flag("died", "the process died without an exception")
            w.journal, w.dirty = [], {}
            return {n: ("died", "the interpreter died") for n, _, _ in bodies}, None
        out = pickle.loads(bytes(buf[8:]))
        if out[0] == "harness":
            raise W.HarnessError(out[1])
        _, results, extra, exported = out
        w.absorb(exported)
        w.file_locks.clear()
        w.open_files.clear()
        w.live_responses.clear()
        if w.powered_off:
            seams.power_loss(w, w.power_seed)
            w.powered_off = False
        return results, extra

    def _child(self, bodies, after, before):
        w = self.w
        gc.disable()
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
        sys.setswitchinterval(10)
        sys.stdout = open(os.devnull, "w")
        if len(bodies) > 1 and self.cfg.get("call_stride"):
            seams.install_call_preemption(os.environ["SIM_REPO"])
        if "lang" in self.cfg:
            for k in ("LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE"):
                os.environ.pop(k, None)
            if self.cfg["lang"]:
                os.environ["LANG"] = self.cfg["lang"]
        results = w.run_actors(before) if before else {}
        if all(s == "ok" for s, _ in results.values()):
            results.update(w.run_actors(bodies))
        extra = after(results) if after is not None else None
        picklable = {n: (s, v if isinstance(v, (str, int, float, tuple, list, dict, bytes, type(None))) else None)
                     for n, (s, v) in results.items()}
        try:
            pickle.dumps(picklable)
        except Exception:
            picklable = {n: (s, None) for n, (s, v) in results.items()}
        return ("ok", picklable, extra, w.export())

    def sub(self, where="sub", cfg=None):
        """another machine beside this one, without faults; see `merge`"""
        global BASE
        saved = BASE
        try:
            set_base(os.path.join(BASE, where))
            return Machine({"seed": self.w.seed, "cfg": cfg or {}}, quiet=True)
        finally:
            set_base(saved)

    def merge(self, other, remembered=False):
        """what happened on another machine counts as part of this run; reference answers that a worker
        remembers from job to job are no part of the run's history"""
        for k, n in other.w.stats.items():
            self.w.stats[k] = self.w.stats.get(k, 0) + n
        self.lives += other.lives
        if not remembered:
            self.w.clock += other.w.clock - other.w.start_clock
            self.w.log.append(("sub", other.w.digest()))
        self.w.flags += [f for f in other.w.flags if f not in self.w.flags]
        seams.set_world(self.w)

    def power_cut(self, seed):
        """power is lost while no process runs"""
        self.note("power loss")
        self.w.count("fault.power_idle")
        seams.power_loss(self.w, seed)


# ---------------------------------------------------------------------------------- opening

class Outcomes:
    """what the calls of one process life returned, kept even when the process dies"""

    def __init__(self):
        self.items = []

    def open(self, path, opener=None):
        """open `path`, remember the outcome: [what, status, filing or text, handle problems]"""
        import brel
        w = seams.WORLD
        entry = [path, "died", None, {}]
        self.items.append(entry)
        a = W.current_actor()
        before_files = set(w.open_files)
        before_resp = set(w.live_responses)
        if a is not None:
            a.started_at, a.steps = w.clock, 0      # each open has its own time to end
        entry[3]["t0"] = w.clock
        entry[3]["req0"] = len(w.requests)
        try:
            f = (opener or brel.Filing.open)(path)
        except (W.SimCrash, W.SimHang, W.SimStuck):
            raise
        except BaseException as e:
            if a is not None and a.dead:
                raise a.why
            entry[1], entry[2] = "raise", W.describe(e, w.root)
            entry[3]["type"] = type(e).__name__
            entry[3]["mro"] = [c.__name__ for c in type(e).__mro__]
            entry[3]["files"] = sorted(w.open_files[h] for h in set(w.open_files) - before_files)
            entry[3]["responses"] = sorted(w.live_responses[h] for h in set(w.live_responses) - before_resp)
            entry[3]["t1"] = w.clock
            return None
        if a is not None and a.dead:
            raise a.why
        entry[1], entry[2] = "ok", f
        entry[3]["files"] = sorted(w.open_files[h] for h in set(w.open_files) - before_files)
        entry[3]["responses"] = sorted(w.live_responses[h] for h in set(w.live_responses) - before_resp)
        entry[3]["t1"] = w.clock
        entry[3]["req1"] = len(w.requests)
        return f

    def finish(self, make=snap.canon, only=None):
        """[(what, status, snapshot or text, details)], outside the simulation; snapshots of `only` these paths"""
        out = []
        for what, status, value, details in self.items:
            if status == "ok" and only is not None and what not in only:
                value = None
            elif status == "ok":
                try:
                    value = make(value)
                except Exception as e:
                    value = {"!": "the filing cannot be read: " + W.describe(e, seams.WORLD.root)}
            out.append((what, status, value, details))
        return out


def isolated(fn):
    """fn() in a copy of this process: whatever it changes is gone afterwards"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            seams.real["os_close"](r)
            data = pickle.dumps(fn())
        except BaseException:
            data = pickle.dumps(("!harness", traceback.format_exc()))
        try:
            seams._write_all(wr, data)
        finally:
            os._exit(0)
    seams.real["os_close"](wr)
    buf = bytearray()
    while True:
        b = seams.real["os_read"](r, 1 << 20)
        if not b:
            break
        buf += b
    seams.real["os_close"](r)
    os.waitpid(pid, 0)
    out = pickle.loads(bytes(buf))
    if isinstance(out, tuple) and out and out[0] == "!harness":
        raise W.HarnessError(out[1])
    return out


def open_all(m, paths, name=None, process=None, make=snap.canon, between=None, only=None):
    """a process that opens paths one after the other; returns its status and the outcomes"""
    name = name or "P%d" % m.lives
    o = Outcomes()

    def body():
        for i, p in enumerate(paths):
            if between is not None:
                between(i)
            o.open(p)

    res, extra = m.life([(name, process or name, body)], after=lambda r: o.finish(make, only))
    status = res[name]
    outs = extra if extra is not None else []
    for what, st, value, details in outs:
        m.note("%s: open %s: %s" % (name, what, st if st != "raise" else "raised " + str(value)))
    if status[0] != "ok":
        m.note("%s ended: %s %s" % (name, status[0], status[1]))
    return status, outs


# ---------------------------------------------------------------------------------- universes

_universes = {}
_references = {}


def universe(spec):
    k = repr(sorted(spec.items(), key=repr))
    if k not in _universes:
        if len(_universes) > 400:
            _universes.clear()
            _references.clear()
        _universes[k] = gen.make(spec["seed"], **spec["knobs"])
    return _universes[k]


class Reference:
    def __init__(self, status, value, truth_diff):
        self.status, self.value, self.truth_diff = status, value, truth_diff


def reference(spec, cfg=None):
    """{entry: Reference}: each entry opened alone, on a fresh machine without any fault"""
    k = repr(sorted(spec.items(), key=repr))
    if k in _references:
        return _references[k]
    u = universe(spec)
    out = {}
    saved = seams.WORLD
    base = BASE
    try:
        set_base(os.path.join(base, "ref"))
        for entry in u.entries:
            m = Machine({"seed": 1}, quiet=True)
            m.install(u)
            t = u.truth[entry]

            def make(f, t=t):
                return snap.canon(f), truth.compare(f, t)
            status, outs = open_all(m, [entry], make=make)
            if status[0] == "ok" and outs[0][1] == "ok" and "!" not in outs[0][2]:
                out[entry] = Reference("ok", outs[0][2][0], outs[0][2][1])
            else:
                out[entry] = Reference(status[0] if status[0] != "ok" else outs[0][1], str(outs[0][2] if outs else status[1]), None)
    finally:
        set_base(base)
        seams.set_world(saved)
    _references[k] = out
    return out

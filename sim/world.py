"""The simulated world: one seeded plan decides every schedule and every fault.

A World owns the virtual clock, the cooperative scheduler, the fault plan, the
event log and the bookkeeping of the simulated disk (what would survive a power
loss).  seams.py routes the real os/io/time/requests calls of the code under
test into it; net.py is the simulated network.

Everything random is taken from Plan.pick().  While searching, a pick draws from
the run's PRNG and every non-default choice is written to plan.script; while
replaying, the script alone decides and everything it does not mention takes the
default (no fault, no preemption).  A script is therefore the complete,
shrinkable schedule-and-fault trace of a run.
"""
import hashlib
import os
import random
import threading

T0 = 1_700_000_000.0  # virtual start of time


class SimCrash(BaseException):
    """the simulated process was killed or lost power"""


class SimHang(BaseException):
    """the simulated process would wait for ever"""


class SimStuck(BaseException):
    """the simulated process exceeded its step or time budget"""


class HarnessError(Exception):
    """a defect of the harness, never of the code under test"""


class Plan:
    def __init__(self, seed=None, script=None, config=None):
        self.replay = script is not None
        self.rng = random.Random(seed) if seed is not None else None
        self.script = dict(script) if script is not None else {}
        self.config = config or {}
        self.used = set()

    def pick(self, key, dist):
        if self.replay:
            value = self.script.get(key)
            if value is not None:
                self.used.add(key)
            return value
        if self.rng is None:
            return None
        value = dist(self.rng)
        if value is not None:
            self.script[key] = value
        return value

    def rate(self, kind):
        return self.config.get(kind, 0.0)


class Actor:
    """one simulated process or caller thread"""

    def __init__(self, name, process):
        self.name = name
        self.process = process
        self.counters = {}
        self.dead = False
        self.why = None
        self.steps = 0
        self.wake_at = None
        self.blocked = None
        self.done = False
        self.go = None
        self.result = None
        self.thread = None
        self.started_at = None

    def nth(self, kind):
        n = self.counters.get(kind, 0)
        self.counters[kind] = n + 1
        return n


_tls = threading.local()
_real_lock = threading.Lock


class RealSemaphore:
    """binary handoff between real threads that no seam replaces"""

    def __init__(self, value=0):
        self._l = _real_lock()
        self._l.acquire()

    def acquire(self):
        self._l.acquire()

    def release(self):
        self._l.release()


real_start = threading.Thread.start
real_join = threading.Thread.join


def current_actor():
    return getattr(_tls, "actor", None)


class World:
    MAX_STEPS = 60_000
    MAX_TIME = 50_000.0

    def __init__(self, root, plan, seed=0, config=None):
        self.root = os.path.realpath(root)   # where the simulated machine's /sim really lives
        self.plan = plan
        self.seed = seed
        self.cfg = config or {}
        self.clock = T0
        self.start_clock = T0
        self.log = []
        self.stats = {}
        self.requests = []          # history of everything the servers saw
        self.mutations = []         # every mutation of the file system: (actor, op, path)
        self.flags = []             # violations noticed while running (class, text)
        self.servers = {}           # uri -> Resource, see net.py
        self.down_hosts = {}
        self.disk_full = False
        self.disk_dead = False
        self.faults_on = True
        self.journal = []           # metadata operations not yet durable
        self.dirty = {}             # path -> durable content (or None) of unsynced data
        self.allowed_dirs = ()
        self.actors = {}
        self.running = None
        self.next_actor = None
        self.main_sem = None
        self.powered_off = False
        self.fault_sites = set()
        self.power_seed = 0
        self.file_locks = {}        # virtual path -> {holder: shared?}
        self.wall_offset = 0.0      # the wall clock may be stepped, the monotonic one not
        self.cwd = "/sim/docs"
        self.schedule = []          # order in which actors ran (for the interleaving measure)
        self.incarnation = 0
        self.hash_rng = random.Random(seed ^ 0x5EED)
        self.preempt_calls = False
        self.open_files = {}
        self.live_responses = {}
        self.next_handle = 0
        self.listing = {}
        self.not_removed = []       # files whose removal an injected disk error refused

    # ---- state that crosses a process boundary -------------------------------------------
    EXPORT = ("clock", "log", "stats", "requests", "mutations", "flags", "down_hosts",
              "disk_full", "disk_dead", "journal", "dirty", "powered_off", "schedule",
              "incarnation", "servers", "faults_on", "wall_offset",
              "fault_sites", "power_seed", "not_removed")

    def export(self):
        d = {k: getattr(self, k) for k in self.EXPORT}
        d["script"] = self.plan.script
        d["rng"] = self.plan.rng.getstate() if self.plan.rng else None
        return d

    def absorb(self, d):
        for k in self.EXPORT:
            setattr(self, k, d[k])
        self.plan.script = d["script"]
        if d["rng"] is not None:
            self.plan.rng.setstate(d["rng"])

    # ---- bookkeeping -----------------------------------------------------------------------
    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def event(self, *what):
        a = current_actor()
        if len(self.log) < 20000:
            self.log.append((round(self.clock, 6), a.name if a else "-") + what)

    def digest(self):
        return hashlib.sha256(repr(self.log).encode()).hexdigest()[:16]

    def flag(self, cls, text):
        if (cls, text) not in self.flags:
            self.flags.append((cls, text))

    def tick(self):
        """looking at the clock is a scheduling point and takes a little time"""
        self.point("clock")
        self.clock += 1e-6

    def wall(self):
        return self.clock + self.wall_offset

    def real(self, vpath):
        """real location of a path of the simulated machine (for the harness)"""
        assert vpath == "/sim" or vpath.startswith("/sim/"), vpath
        return self.root + vpath[4:]

    @staticmethod
    def rel(vpath):
        return vpath[5:] if vpath.startswith("/sim/") else vpath

    # ---- actors and scheduling -------------------------------------------------------------
    def check_alive(self, a):
        if a.dead:
            raise a.why
        if self.powered_off:
            a.dead, a.why = True, SimCrash("power")
            raise a.why
        a.steps += 1
        if a.steps > self.MAX_STEPS:
            self.stuck(a, "more than %d steps" % self.MAX_STEPS)
        if a.started_at is not None and self.clock - a.started_at > self.MAX_TIME:
            self.stuck(a, "more than %d simulated seconds" % self.MAX_TIME)

    def stuck(self, a, text):
        self.flag("hang", "%s did not end: %s" % (a.name, text))
        a.dead, a.why = True, SimStuck(text)
        raise a.why

    def hang(self, a, text):
        self.flag("hang", "%s waits for ever: %s" % (a.name, text))
        self.event("hang", text)
        a.dead, a.why = True, SimHang(text)
        raise a.why

    def die(self, a, how):
        """kill the process of actor a at this instant ('kill') or the whole machine ('power')"""
        self.count("fault.crash_" + how)
        self.event("crash", how)
        exc = SimCrash(how)
        for other in self.actors.values():
            if how == "power" or other.process == a.process:
                other.dead, other.why = True, exc
        a.dead, a.why = True, exc
        if how == "power":
            self.powered_off = True
        raise exc

    def point(self, kind, faults=True):
        """A scheduling point of the current actor. Returns the fault to inject, if any."""
        a = current_actor()
        self.check_alive(a)
        if len(self.actors) > 1:
            self.maybe_switch(a)
            self.check_alive(a)
        return a, a.nth(kind)

    def maybe_switch(self, a):
        others = [o.name for o in self.actors.values() if o is not a and self.ready(o)]
        if not others:
            return
        n = a.nth("y")
        rate = self.plan.rate("preempt")

        def dist(r):
            return r.choice(others) if r.random() < rate else None

        to = self.plan.pick("%s:y%d" % (a.name, n), dist)
        if to is None or to not in self.actors:
            return
        o = self.actors[to]
        if o is a or not self.ready(o):
            return
        self.count("sched.preemptions")
        self.switch_to(o, a)

    @staticmethod
    def ready(o):
        if o.done or o.wake_at is not None:
            return False
        return o.blocked is None or o.dead or o.blocked()

    def block_until(self, free, what):
        """the current actor waits for another one (a lock)"""
        a = current_actor()
        self.check_alive(a)
        if free():
            return
        if len(self.actors) <= 1:
            self.hang(a, what)
        self.count("sched.lock_waits")
        a.blocked = free
        self.next_actor = None
        self.main_sem.release()
        a.go.acquire()
        self.running = a
        a.blocked = None
        self.check_alive(a)

    def switch_to(self, o, a):
        self.next_actor = o
        self.main_sem.release()
        a.go.acquire()
        self.running = a

    def sleep(self, seconds):
        a = current_actor()
        self.check_alive(a)
        seconds = max(0.0, float(seconds))
        self.event("sleep", round(seconds, 6))
        self.wait_until(self.clock + seconds)

    def wait_until(self, t):
        """virtual time passes for this actor; others may run meanwhile"""
        a = current_actor()
        alive = [o for o in self.actors.values() if not o.done]
        if len(alive) <= 1 or a.go is None:
            self.clock = max(self.clock, t)
        else:
            a.wake_at = t
            self.next_actor = None
            self.main_sem.release()
            a.go.acquire()
            self.running = a
        self.check_alive(a)

    def run_actors(self, bodies):
        """bodies: list of (name, process, callable). Runs them under the seeded scheduler.
        Returns {name: (status, value)} with status ok/raise/crash/hang/stuck."""
        self.main_sem = RealSemaphore(0)
        self.actors = {}
        for name, process, fn in bodies:
            a = Actor(name, process)
            a.go = RealSemaphore(0)
            a.started_at = self.clock
            self.actors[name] = a

            def body(a=a, fn=fn):
                a.go.acquire()
                _tls.actor = a
                self.running = a
                try:
                    a.result = self._call(a, fn)
                finally:
                    _tls.actor = None
                    a.done = True
                    self.next_actor = None
                    self.main_sem.release()

            a.thread = threading.Thread(target=body, daemon=True)
            real_start(a.thread)
        primary = list(self.actors.values())
        self.next_actor = primary[0]
        last = None
        while True:
            todo = [a for a in self.actors.values() if not a.done]
            if all(a.done for a in primary):
                break
            a = self.next_actor
            if a is None or not self.ready(a):
                ready = [x for x in todo if self.ready(x)]
                if not ready:
                    sleeping = [x.wake_at for x in todo if x.wake_at is not None]
                    if not sleeping:
                        x = todo[0]
                        self.flag("hang", "deadlock of " + ", ".join(y.name for y in todo))
                        for y in todo:
                            y.dead, y.why = True, SimHang("deadlock")
                        continue
                    t = min(sleeping)
                    self.clock = max(self.clock, t)
                    for x in todo:
                        if x.wake_at is not None and x.wake_at <= self.clock:
                            x.wake_at = None
                    continue
                names = [x.name for x in ready]
                key = "sched%s" % self.nth_global("sched")
                pick = self.plan.pick(key, lambda r: r.choice(names) if len(names) > 1 else None)
                a = next((x for x in ready if x.name == pick), ready[0])
            if a.name != last:
                self.schedule.append(a.name)
                last = a.name
            self.next_actor = None
            a.go.release()
            self.main_sem.acquire()
        res = {a.name: a.result for a in primary}
        for a in primary:
            a.thread.join()
        self.actors = {}
        self.running = None
        for r in res.values():
            if r[0] == "harness":
                raise HarnessError(r[1])
        return res

    def spawn(self, thread):
        """a thread started by the code under test becomes an actor of the same process"""
        parent = current_actor()
        self.check_alive(parent)
        a = Actor("%s.t%d" % (parent.name, parent.nth("thread")), parent.process)
        a.go = RealSemaphore(0)
        a.started_at = self.clock
        a.thread = thread
        run = thread.run
        self.count("sched.threads_spawned")

        def body():
            a.go.acquire()
            _tls.actor = a
            self.running = a
            try:
                run()
            except (SimCrash, SimHang, SimStuck):
                pass
            finally:
                _tls.actor = None
                a.done = True
                self.next_actor = None
                self.main_sem.release()

        thread.run = body
        thread._sim_actor = a
        _tls.actor = None       # the start handshake is not part of the simulation
        try:
            real_start(thread)
        finally:
            _tls.actor = parent
        self.actors[a.name] = a
        self.maybe_switch(parent)

    def join(self, thread, timeout=None):
        a = thread._sim_actor
        if timeout is not None and timeout >= 0:
            deadline = self.clock + timeout
            while not a.done and self.clock < deadline:
                self.wait_until(min(deadline, self.clock + 0.05))
            if not a.done:
                return
        else:
            self.block_until(lambda: a.done, "a thread")
        me, _tls.actor = _tls.actor, None
        try:
            real_join(thread)
        finally:
            _tls.actor = me

    def nth_global(self, kind):
        c = getattr(self, "_g", None)
        if c is None:
            c = self._g = {}
        c[kind] = c.get(kind, 0) + 1
        return "%d.%d" % (self.incarnation, c[kind])

    def _call(self, a, fn):
        try:
            v = ("ok", fn())
        except SimCrash as e:
            v = ("crash", str(e))
        except SimHang as e:
            v = ("hang", str(e))
        except SimStuck as e:
            v = ("stuck", str(e))
        except HarnessError as e:
            v = ("harness", repr(e))
        except RecursionError as e:
            v = ("raise", "RecursionError")
        except BaseException as e:  # noqa: the code under test may raise anything
            v = ("raise", describe(e, self.root))
        if a.dead and v[0] != "harness":
            # whatever a dead process "returns" (its last breath) has no effect
            kind = {SimCrash: "crash", SimHang: "hang", SimStuck: "stuck"}[type(a.why)]
            v = (kind, str(a.why))
        return v


def describe(e, root=None):
    text = "%s: %s" % (type(e).__name__, e)
    if root:
        text = text.replace(root, "<root>")
    import re
    text = re.sub(r"0x[0-9a-f]{6,}", "0x..", text)
    return text[:300]

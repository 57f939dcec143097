"""What each check runs: which universes, histories, fault mixes and sweeps, all derived from one seed.

A plan yields jobs (plain data, JSON-safe apart from tuples). job["w"] is the worker that runs it, so
that the universes a worker knows are few. `follow(job, result)` yields more jobs (sweeps over
every step of a probed run).
"""
import random

import gen
import net

WORKERS = 8
DISK = ("kill", "power", "torn", "eio", "enospc", "enospc_at", "full", "short", "eacces", "emfile")
NET = ("refused", "dns", "conn_timeout", "read_timeout", "reset", "ssl", "status", "trunc", "trunc_chunked", "trunc_close",
       "body_reset", "body_stall", "bad_gzip")
# what can go wrong at a step of a kind (see seams.fs_point)
AT = {
    "truncate": ("kill", "power", "eio"), "fsync": ("kill", "power", "eio"), "remove": ("kill", "power", "eio"),
    "link": ("kill", "power", "eio"), "read": ("kill", "eio", "short"), "write": ("kill", "power", "torn", "eio", "enospc_at", "full", "short"),
    "open_w": ("kill", "power", "eio", "eacces", "enospc", "emfile"), "open_r": ("kill", "eio", "emfile"), "rename": ("kill", "power", "eio", "enospc"),
    "listdir": ("kill",), "lock": ("kill",), "mkdir": ("kill", "power", "eio", "enospc"), "rmdir": ("kill", "power", "eio"),
    "utime": ("kill", "power", "eio"), "chmod": ("kill", "power", "eio"),
}
CHANGES = ("truncate", "fsync", "remove", "link", "write", "open_w", "rename", "mkdir", "rmdir", "utime", "chmod")


def subset(r, xs, low=1):
    xs = list(xs)
    return [xs[i] for i in sorted(r.sample(range(len(xs)), r.randint(low, len(xs))))]


def rate(r, low, high):
    return round(low * (high / low) ** r.random(), 5)


def swarm(r, disk=(), net=(), low=0.003, high=0.08, sticky=True):
    """a random subset of the fault kinds, each at a random rate"""
    out = {}
    if disk:
        for k in subset(r, disk):
            out["fs." + k] = rate(r, low, high)
    if net:
        for k in subset(r, net):
            out["net." + k] = rate(r, low * 3, high * 4)
    if r.random() < 0.5:
        # few faults let a run get further than many
        out = {k: round(v * 0.12, 5) for k, v in out.items()}
    if net and sticky and r.random() < 0.5:
        out["net.sticky"] = r.choice((0.2, 0.5, 1.0))
    return out


def outage(r, name=None):
    """how a server answers while it is out of order"""
    f = net_fault(r, name or r.choice(NET + ("status",) * 6))
    return f[:-1]


def machine_cfg(r, timing=True):
    """the rest of the machine: sizes of buffers and packets, order of folders, speed of the network"""
    c = {}
    if r.random() < 0.5:
        c["bufsize"] = r.choice((64, 512, 4096))
    if r.random() < 0.5:
        c["net_chunk"] = r.choice((64, 500, 1460))
    if r.random() < 0.5:
        c["listing"] = r.randrange(1000)
    if timing and r.random() < 0.5:
        c["latency"] = r.choice((0.0, 0.001, 0.3, 3.0))
    if timing and r.random() < 0.35:
        c["gaps"] = r.randrange(1 << 20)      # time passes between the lives
    return c


def fault_at(r, kind, name):
    if name in ("torn", "enospc_at", "short"):
        return [name, r.choice((0.0, 0.3, 0.5, 0.9, 0.999))]
    if name == "power":
        return [name, r.randrange(1 << 30)]
    return [name]


def net_fault(r, name):
    if name == "status":
        return [name, r.choice(net.LIKELY), r.random() < 0.5, r.random() < 0.2]
    if name in net.CUTS:
        return [name, r.choice((0.0, 0.2, 0.5, 0.9, 0.999)), r.random() < 0.2]
    return [name, r.random() < 0.2]


class Plan:
    title = ""
    level = "exploration"
    rule = ""
    trusted = []

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.r = random.Random("%s %s %s" % (pid, tier, seed))

    def n(self, quick, thorough):
        return min(3 * quick, thorough) if self.quick else thorough

    def pool(self, n, size="small", kinds=None, **over):
        """n universes"""
        out = []
        for i in range(n):
            r = random.Random("pool %s %s %s %d" % (self.pid, self.tier, self.seed, i))
            k = gen.random_knobs(r, kind=r.choice(kinds) if kinds else None, size=size)
            for name, v in over.items():
                k[name] = v(r) if callable(v) else v
            out.append({"seed": r.randrange(1 << 30), "knobs": k})
        return out

    def job(self, scenario, i, r, **k):
        return {"scenario": scenario, "seed": r.randrange(1 << 30), "w": i % WORKERS, **k}

    def first(self):
        raise NotImplementedError

    def follow(self, job, res):
        return ()

    def nontrivial(self, job, res):
        return any(k.startswith("fault.") for k in res["stats"])


def moved(r):
    """have files moved to other places, to which their servers redirect?"""
    return r.randrange(1, 1 << 30) if r.random() < 0.25 else None


def opens(r, most=3, n=6):
    return [r.randrange(n) for _ in range(r.randint(1, most))]


class Crash(Plan):
    """C01"""
    level = "fault_enumeration"
    rule = ("a case is one simulated run: process lives opening filings under a seeded fault script, then fault-free opens that must all be complete and correct; "
            "non-trivial = at least one disk fault, kill or power loss fired; distinct = different event-log digest")

    def first(self):
        r = self.r
        pool = self.pool(self.n(16, 64))
        sweep = self.pool(self.n(4, 24))
        for i, s in enumerate(sweep):
            s["knobs"]["lbs"] = min(s["knobs"]["lbs"], 3)
            s["knobs"]["base"] = 0
            if i % 4 != 3:
                s["knobs"]["kind"] = "remote"
                s["knobs"]["catalog"] = 0
            yield self.job("faults", i, r, universes=[s], mode="crash", lives=[{"open": [0]}], script={}, trace=True, sweep=True,
                           cfg={"bufsize": r.choice((512, 8192)), "listing": 1})
        for i in range(self.n(700, 16000)):
            k = i % len(pool)
            lives = []
            for _ in range(r.choice((1, 1, 2, 3, 4))):
                lives.append({"open": opens(r), "power": r.randrange(1 << 30) if r.random() < 0.3 else None, "relief": r.random() < 0.3})
            specs = [pool[k]] if r.random() < 0.8 else [pool[k], pool[(k + 8) % len(pool)]]
            rates = swarm(r, DISK)
            if r.random() < 0.2:
                rates.update(swarm(r, (), NET, sticky=False))
            yield self.job("faults", k, r, universes=specs, mode="crash", lives=lives, rates=rates, cfg=machine_cfg(r), redirects=moved(r),
                           again=r.randrange(1, 1 << 30) if r.random() < 0.4 else None)

    def follow(self, job, res):
        if not job.get("sweep"):
            return
        r = random.Random("sweep %s %s" % (self.seed, job["seed"]))
        cap = self.n(220, 700)
        todo = []
        ops = [e for e in res["log"] if e[1] == "P0" and e[2] == "fs"]
        for i, e in enumerate(ops):
            kind = e[3]
            if kind not in CHANGES:
                # reads leave no state behind: one failure of them is enough
                names = ("eio",) if r.random() < 0.1 and "eio" in AT.get(kind, ()) else ()
            else:
                names = AT[kind]
            for name in names:
                todo.append((i, fault_at(r, kind, name)))
                if name == "power":
                    todo.append((i, fault_at(r, kind, name)))
        if len(todo) > cap:
            todo = [todo[j] for j in sorted(r.sample(range(len(todo)), cap))]
        for i, f in todo:
            j = {k: v for k, v in job.items() if k not in ("trace", "sweep")}
            j["w"] = r.randrange(WORKERS)
            j["script"] = {"P0:fs%d" % i: f}
            j["again"] = 7 if r.random() < 0.3 else None
            yield j


class Download(Plan):
    """C02"""
    level = "fault_enumeration"
    rule = ("a case is one simulated run: opens of filings while a seeded fault hits some of their requests, then fault-free opens; a returned filing must be complete and "
            "every remote file of it must have been delivered whole at least once; non-trivial = a network fault fired; distinct = different event-log digest")

    def first(self):
        r = self.r
        pool = self.pool(self.n(16, 64))
        sweep = self.pool(self.n(6, 30))
        for i, s in enumerate(sweep):
            if i % 3 != 2:
                s["knobs"]["kind"] = "remote"
                s["knobs"]["catalog"] = 0
            yield self.job("faults", i, r, universes=[s], mode="download", lives=[{"open": [0]}, {"open": [0]}], script={}, trace=True, sweep=True, cfg={}, twins=i)
        for i in range(self.n(700, 16000)):
            k = i % len(pool)
            lives = [{"open": opens(r), "relief": r.random() < 0.4} for _ in range(r.choice((1, 1, 2, 3)))]
            specs = [pool[k]] if r.random() < 0.8 else [pool[k], pool[(k + 8) % len(pool)]]
            c = machine_cfg(r)
            if r.random() < 0.2:
                c["drip"] = r.choice((0.01, 1.0))
            yield self.job("faults", k, r, universes=specs, mode="download", lives=lives, rates=swarm(r, (), NET), cfg=c, redirects=moved(r), twins=r.randrange(1000) if r.random() < 0.6 else None)

    def follow(self, job, res):
        if not job.get("sweep"):
            return
        r = random.Random("sweep %s %s" % (self.seed, job["seed"]))
        n = sum(1 for q in res["requests"] if q["actor"] == "P0")
        todo = [(i, net_fault(r, name)) for i in range(n) for name in NET]
        todo += [(i, ["status", code, x]) for i in range(n) for code in net.STATUSES for x in (False, True) if r.random() < 0.5]
        cap = self.n(220, 600)
        if len(todo) > cap:
            todo = [todo[j] for j in sorted(r.sample(range(len(todo)), cap))]
        for i, f in todo:
            j = {k: v for k, v in job.items() if k not in ("trace", "sweep")}
            j["w"] = r.randrange(WORKERS)
            j["script"] = {"P0:net%d" % i: f}
            yield j

    def nontrivial(self, job, res):
        return any(k.startswith("fault.net") for k in res["stats"])


class Recover(Plan):
    """C03"""
    rule = ("a case is one simulated run: opens (filings, EDGAR lookups, or documents that lead back to themselves) under stalls, outages, disk and network faults on the "
            "virtual clock, then the faults stop and the next open must succeed; non-trivial = a fault fired or a cyclic document was opened; distinct = event-log digest")

    def first(self):
        r = self.r
        pool = self.pool(self.n(16, 64))
        for i in range(self.n(450, 9000)):
            k = i % len(pool)
            lives = []
            for _ in range(r.choice((1, 1, 2, 3))):
                life = {"open": opens(r, 4), "relief": r.random() < 0.3}
                if len(life["open"]) > 1 and r.random() < 0.6:
                    life["calm_at"] = r.randint(1, len(life["open"]) - 1)
                lives.append(life)
            c = machine_cfg(r)
            if r.random() < 0.3:
                c["drip"] = r.choice((0.1, 3.0))
                c["net_chunk"] = 512
            disk = [x for x in DISK if x not in ("kill", "power")] if r.random() < 0.4 else ()
            yield self.job("faults", k, r, universes=[pool[k]], mode="recover", lives=lives,
                           rates=swarm(r, disk, NET if not disk or r.random() < 0.6 else ()), cfg=c, redirects=moved(r))
        for i in range(self.n(220, 4000)):
            k = i % 8
            yield self.job("ends", k, r, universes=[pool[k]], odd={"seed": r.randrange(1 << 30)}, cfg=machine_cfg(r), lives=[])
        for i in range(self.n(120, 2500)):
            yield edgar_faults(self, i, r, "recover")
        # every server out of order in every way, for as long as it takes
        ways = [outage(r, name) for name in NET if name != "status"] + [["status", code, r.random() < 0.5] for code in net.STATUSES]
        for turn in range(self.n(1, 6)):
            for i, way in enumerate(ways):
                for host in ("data.sec.gov", "www.sec.gov", "xbrl.example.org"):
                    calls = edgar_ops(r, 3, 2)
                    yield self.job("edgar", i, r, universes=[], mode="recover", edgar={"seed": r.randrange(400), "companies": 2, "growing": r.random() < 0.7},
                                   lives=[[["outage", host, way]] + calls[:2] + [["calm"], calls[2]]], rates={}, cfg=machine_cfg(r))
                k = r.randrange(len(pool))
                yield self.job("faults", i, r, universes=[pool[k]], mode="recover", lives=[{"open": [0, 1, 0], "calm_at": 2}],
                               script={"P0:net%d" % r.choice((0, 0, 1, 2)): way + [True]}, rates={}, cfg=machine_cfg(r))

    def nontrivial(self, job, res):
        return job["scenario"] == "ends" or any(k.startswith("fault.") for k in res["stats"])


def edgar_ops(r, n, companies, waits=False):
    ops = []
    for _ in range(n):
        ops.append(["call", r.randrange(companies), r.choice(("10-K", "10-Q", "8-K", "10-K", "10-Q")), None if r.random() < 0.6 else "pick"])
    return ops


def edgar_faults(plan, i, r, mode):
    companies = r.choice((1, 2, 3))
    lives = []
    for _ in range(r.choice((1, 2, 2, 3))):
        if mode == "fault" and r.random() < 0.4:
            lives.append({"actors": [[r.choice(("A", "B", "C")), with_changes(r, edgar_ops(r, r.randint(1, 2), companies), companies)] for _ in range(r.choice((2, 2, 3)))],
                          "power": r.randrange(1 << 30) if r.random() < 0.2 else None})
        else:
            ops = with_changes(r, edgar_ops(r, r.randint(1, 3), companies), companies)
            if r.random() < 0.25:
                ops = with_outages(r, ops)
            if mode == "recover" and r.random() < 0.5:
                ops.append(["calm"])
                ops += edgar_ops(r, 2, companies)
            lives.append({"actors": [["P", ops]], "power": r.randrange(1 << 30) if r.random() < 0.2 else None} if r.random() < 0.3 else ops)
    disk = DISK if mode == "fault" else [x for x in DISK if x not in ("kill", "power")]
    rates = swarm(r, disk if r.random() < 0.8 else (), NET if r.random() < 0.6 else (), low=0.01, high=0.15)
    rates["preempt"] = r.choice((0.05, 0.2, 0.5))
    c = machine_cfg(r)
    if r.random() < 0.3:
        c["call_stride"] = r.choice((1, 3))
    return plan.job("edgar", i, r, universes=[], mode=mode, edgar={"seed": r.randrange(400), "companies": companies, "growing": r.random() < 0.7},
                    lives=lives, rates=rates, cfg=c)


def with_outages(r, ops):
    """at some calls the servers are out of order"""
    out = []
    for op in ops:
        if op[0] == "call" and r.random() < 0.35:
            out += [["outage", r.choice(("data.sec.gov", "data.sec.gov", "www.sec.gov", "xbrl.example.org")), outage(r)], op, ["up"]]
            if r.random() < 0.5:
                continue
        out.append(op)
    return out


def with_changes(r, ops, companies):
    out = []
    for op in ops:
        if r.random() < 0.4:
            out.append(["wait", r.choice((10, 3600, 50000, 86390, 86470, 200000))])
        if r.random() < 0.3:
            out.append(["change", r.randrange(companies)])
        out.append(op)
    return out


class Reopen(Plan):
    """C04"""
    rule = ("a case is one history of opens, restarts, outages and server changes; every reopen whose files are cached must be identical to the fault-free filing and request "
            "none of them; non-trivial = at least one open had every remote file cached; distinct = event-log digest")

    def first(self):
        r = self.r
        pool = self.pool(self.n(32, 160))
        for i in range(self.n(800, 16000)):
            k = i % len(pool)
            steps = []
            for _ in range(r.randint(1, 5)):
                steps.append(["open", r.randrange(6)])
                x = r.random()
                if r.random() < 0.015:
                    steps.append(["fill", r.randrange(4), r.choice((40, 150, 300, 600, 1100))])
                if r.random() < 0.2:
                    steps.append(["wait", r.choice((3600, 90000, 700000, 3000000, 35000000))])
                if x < 0.35:
                    steps.append(["restart"])
                elif x < 0.55:
                    steps.append(["offline"])
                elif x < 0.65:
                    steps.append(["online"])
                elif x < 0.85:
                    steps.append(["change"])
            steps += [["open", s[1]] for s in steps if s[0] == "open"][: r.randint(1, 3)]
            specs = [pool[k]] if r.random() < 0.7 else [pool[k], pool[(k + 8) % len(pool)]]
            yield self.job("reopen", k, r, universes=specs, steps=steps, alter=r.choice(("garbage", "gone", "other")), cfg=machine_cfg(r), redirects=moved(r))

    def nontrivial(self, job, res):
        return bool(res["probes"].get("reopened with everything cached"))


class Concurrent(Plan):
    """C05"""
    rule = ("a case is one seeded interleaving of 2-5 opens (threads and processes) over one cache, with kills and request faults in some; non-trivial = the scheduler switched "
            "between actors; distinct = different order in which actors ran (schedule hash)")

    def first(self):
        r = self.r
        pool = self.pool(self.n(24, 120))
        for i in range(self.n(700, 14000)):
            k = i % len(pool)
            specs = [pool[k]] if r.random() < 0.6 else [pool[k], pool[(k + 8) % len(pool)]]
            lives = []
            for _ in range(r.choice((1, 1, 1, 2))):
                same = r.random() < 0.5
                actors = []
                names = r.choice((("A", "A"), ("A", "B"), ("A", "B"), ("A", "B", "C"), ("A", "A", "B"), ("A", "A", "A", "B", "C")))
                e = opens(r, 2)
                for p in names:
                    actors.append([p, e if same else opens(r, 2)])
                lives.append({"actors": actors})
            rates = {"preempt": r.choice((0.02, 0.1, 0.3, 0.6))}
            if r.random() < 0.5:
                rates.update(swarm(r, ("kill", "eio", "enospc_at", "short", "torn") if r.random() < 0.6 else (), [x for x in NET if x != "status"] if r.random() < 0.5 else (),
                                   low=0.001, high=0.02, sticky=False))
            c = machine_cfg(r)
            x = r.random()
            if x < 0.3:
                c["call_stride"] = r.choice((1, 5, 23))
            elif x < 0.45:
                c["line_stride"] = r.choice((3, 17, 61))
                c["call_stride"] = 11
            yield self.job("concurrent", k, r, universes=specs, lives=lives, rates=rates, cfg=c, warm=opens(r, 2) if r.random() < 0.25 else None, redirects=moved(r))

    def nontrivial(self, job, res):
        return res["schedule"] is not None


class Local(Plan):
    """C06"""
    rule = ("a case is one history of opens, edits, copies, swaps, deletions and restarts over local filings; every open is compared with the one of a machine that never opened "
            "anything and holds the same bytes; non-trivial = an open came after a change; distinct = event-log digest")

    def first(self):
        r = self.r
        pool = self.pool(self.n(24, 120), kinds=("file", "folder", "local-all", "local-all"))
        for n, s in enumerate(pool):
            if s["knobs"]["kind"] == "folder" and s["knobs"]["taxes"]:
                s["knobs"]["catalog"] = 1
            if n % 4 == 1:
                s["knobs"]["extra"] = (2, 10, 15)[n % 3]
        for i in range(self.n(420, 8000)):
            k = i % len(pool)
            specs = [pool[k]] if r.random() < 0.6 else [pool[k], pool[(k + 8) % len(pool)]]
            lives = []
            for _ in range(r.choice((1, 1, 2, 3))):
                ops = []
                for _ in range(r.randint(1, 3)):
                    for _ in range(r.choice((0, 1, 1, 2))):
                        ops.append(r.choice((["edit", False], ["edit", True], ["edit", False], ["copy"], ["swap"], ["delete"], ["time"], ["zip"])))
                    ops.append(["open", r.randrange(7), r.random() < 0.3])
                    if r.random() < 0.4:
                        # what was just opened changes
                        ops += [["edit", r.random() < 0.5, ops[-1][1]], list(ops[-1])]
                    if any(x["knobs"].get("catalog") for x in specs) and r.random() < 0.7:
                        # the catalog changes, and changes back
                        for _ in range(r.choice((1, 2, 2))):
                            ops += [["edit", r.random() < 0.3, ops[-1][1], "META-INF/catalog.xml"], list(ops[-1])]
                lives.append(ops)
            yield self.job("local", k, r, universes=specs, lives=lives, cfg=machine_cfg(r))

    def nontrivial(self, job, res):
        return any(k.startswith("opened after") and k != "opened after 0 changes" for k in res["probes"])


class Near(Plan):
    """C07"""
    rule = ("a case opens filings that refer to many remote URIs one edit apart, in some order over several lives; every declared element must come from its own URI; "
            "non-trivial = at least three such URIs were loaded; distinct = event-log digest")

    def first(self):
        r = self.r
        for i in range(self.n(500, 9000)):
            wide = r.random() < 0.3
            n = r.choice((20, 60)) if wide else r.choice((4, 8, 16, 24))
            spec = {"seed": r.randrange(1 << 30), "n": n, "entries": r.choice((1, 2, 3)), "wide": wide}
            yield self.job("near", i, r, universes=[], near=spec, lives=[opens(r, 3) for _ in range(r.choice((1, 2, 2, 3)))], cfg=machine_cfg(r))
        # many more files than any table of short names could keep apart
        for i in range(self.n(4, 24)):
            spec = {"seed": r.randrange(1 << 30), "n": self.n(400, 900), "entries": 4, "wide": True}
            yield self.job("near", i, r, universes=[], near=spec, lives=[[0, 1, 2, 3], [3, 1]], cfg={})

    def nontrivial(self, job, res):
        return res["probes"].get("uris opened", 0) >= 3


class Same(Plan):
    """C08: the same job runs on workers with different hash seeds"""
    rule = ("a case opens one filing repeatedly under different hash seeds, object addresses, listing orders, working directories, locales, clocks and cache states and compares "
            "everything it answers, in order; non-trivial = at least two opens were compared; distinct = different universe or variant list")

    def first(self):
        r = self.r
        # "bad" universes also report errors, in an order
        pool = self.pool(self.n(64, 800), bad=lambda q: q.choice((0, 0, 1, 3)), notes=lambda q: q.choice((0, 1, 2)), dims=lambda q: q.choice((0, 1, 1)))
        for i, s in enumerate(pool):
            for round_ in range(self.n(1, 2)):
                variants = [{"listing": r.randrange(1000), "identity": r.randrange(1000)}]
                for _ in range(2):
                    v = {"listing": r.randrange(1000), "identity": r.randrange(1 << 20)}
                    if r.random() < 0.4:
                        v["cwd"] = r.choice(("/sim/home", "/sim/tmp", "/sim/docs", "/sim"))
                    if r.random() < 0.3:
                        v["warm"] = opens(r, 2)
                    if r.random() < 0.3:
                        v["twice"] = 2
                    if r.random() < 0.4:
                        v["again"] = True
                    if r.random() < 0.3:
                        v["t0"] = r.choice((1_500_000_000.0, 1_709_200_000.0, 1_900_000_000.0))
                    if r.random() < 0.3:
                        v["bufsize"] = 64
                    if r.random() < 0.5:
                        v["times"] = r.randrange(1000)
                    if r.random() < 0.3:
                        v["thread"] = True
                    if r.random() < 0.3:
                        v["latency"] = 3.0
                    variants.append(v)
                specs = [s]
                if r.random() < 0.2:
                    specs.append(pool[(i + 8) % len(pool)])
                e = r.randrange(6)
                ws = r.sample(range(WORKERS), 3)
                seed = r.randrange(1 << 30)
                for w in ws:
                    yield {"scenario": "variants", "seed": seed, "w": w, "universes": specs, "entry": e, "variants": variants, "cfg": {}, "group": "%d.%d" % (i, round_)}

    def nontrivial(self, job, res):
        return res["probes"].get("opens compared", 0) >= 2


class Whole(Plan):
    """C09"""
    rule = ("a case opens generated filings whose taxonomy set, facts, elements, labels, relationships and components are known, in one process, some of them twice, over healthy "
            "simulated servers with varying packet and buffer sizes; non-trivial = the filing has at least two files and one fact; distinct = event-log digest")

    def first(self):
        r = self.r
        pool = self.pool(self.n(420, 5000), size="small")
        big = self.pool(self.n(90, 1500), size="large")
        for i, s in enumerate(pool + big):
            specs = [s]
            if r.random() < 0.2:
                specs.append(pool[(i + 8) % len(pool)])
            ops = [[r.randrange(2), r.randrange(6)] for _ in range(r.choice((1, 2, 2, 3)))]
            yield self.job("whole", i, r, universes=specs, opens=ops, cfg=machine_cfg(r))

    def nontrivial(self, job, res):
        return res["probes"].get("files per filing", 0) >= 2 and res["probes"].get("facts", 0) >= 1


class Fair(Plan):
    """C10"""
    rule = ("a case is one history of opens with files on www.sec.gov and elsewhere, under faults, redirects, latencies and clock steps; the times and headers of all requests the "
            "SEC's server saw are judged; non-trivial = at least one pair of consecutive SEC requests was judged; distinct = event-log digest")

    def first(self):
        r = self.r
        pool = self.pool(self.n(24, 120), sec=1, kinds=("remote", "remote", "file", "folder"), taxes=lambda q: q.choice((1, 1, 2)))
        for i in range(self.n(650, 12000)):
            k = i % len(pool)
            specs = [pool[k]] if r.random() < 0.6 else [pool[k], pool[(k + 8) % len(pool)]]
            lives = [{"open": opens(r, 4, 9)} for _ in range(r.choice((1, 1, 2, 3)))]
            rates = swarm(r, DISK if r.random() < 0.2 else (), NET, low=0.01, high=0.2) if r.random() < 0.6 else {}
            if r.random() < 0.3:
                rates["clock.jump"] = r.choice((0.02, 0.2, 0.6))
            c = machine_cfg(r)
            if r.random() < 0.5:
                c["latency"] = r.choice((0.0, 0.0, 0.001, 0.04, 1.0))
            yield self.job("fair", k, r, universes=specs, lives=lives, rates=rates, cfg=c, redirects=r.random() < 0.4,
                           edgar={"seed": r.randrange(200), "companies": 2} if r.random() < 0.3 else None, clear=0 if r.random() < 0.3 else None)

    def nontrivial(self, job, res):
        return res["probes"].get("pairs judged", 0) >= 1


ZONES = (None, None, "UTC0", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "PST8", "IST-5:30")


class Age(Plan):
    """C11"""
    rule = ("a case is one history of open_edgar calls with virtual waits around one day (in process and across restarts, in several time zones, over DST changes) while the server's "
            "metadata grows, in some under network and disk faults; non-trivial = some call found stored metadata; distinct = event-log digest")

    def first(self):
        r = self.r
        for i in range(self.n(900, 18000)):
            companies = r.choice((1, 1, 2, 3))
            lives = []
            for _ in range(r.choice((1, 2, 2, 3))):
                ops = []
                for _ in range(r.randint(1, 4)):
                    ops += edgar_ops(r, 1, companies)
                    if r.random() < 0.6:
                        ops.append(["change", r.randrange(companies)])
                    if r.random() < 0.8:
                        ops.append(["wait", r.choice((1, 60, 3600, 12 * 3600, 43200 + r.randrange(-300, 300), 86400 - 300, 86400 - 3700, 86400 + 100, 86400 + 300, 86400 + 3700,
                                                      86400 * r.randint(2, 40) + r.randrange(100, 80000), r.randrange(1, 200000)))])
                lives.append(ops)
                if r.random() < 0.3:
                    lives.append([["wait", r.choice((86400 - 300, 86400 + 200, 3600, 100000))]])
            c = machine_cfg(r)
            tz = r.choice(ZONES)
            if tz:
                c["tz"] = tz
            if r.random() < 0.6:
                # near a change of daylight saving time, a new year, a leap day
                c["t0"] = r.choice((1699149600.0, 1710054000.0, 1695477600.0, 1712412000.0, 1704060000.0, 1709150000.0)) + r.randrange(-90000, 90000)
            rates = {}
            x = r.random()
            if x < 0.15:
                rates = swarm(r, [x for x in DISK if x not in ("kill", "power")] if r.random() < 0.4 else (), NET if r.random() < 0.7 else (), sticky=False)
            elif x < 0.4:
                # a refresh that fails is no reason to use what is there
                lives = [with_outages(r, ops) for ops in lives]
            yield self.job("edgar", i, r, universes=[], mode="age", edgar={"seed": r.randrange(400), "companies": companies, "growing": True}, lives=lives, cfg=c, rates=rates)

    def nontrivial(self, job, res):
        return any(k.startswith("call with metadata") for k in res["probes"])


class Select(Plan):
    """C12"""
    rule = ("a case is one history of open_edgar calls over several companies, forms and dates, valid and invalid, with metadata changing on the server; every answer is judged "
            "against the metadata delivered; non-trivial = at least two calls were judged; distinct = event-log digest")

    def first(self):
        r = self.r
        for i in range(self.n(900, 18000)):
            companies = r.choice((1, 2, 3, 4))
            lives = []
            for _ in range(r.choice((1, 2, 3))):
                ops = []
                for _ in range(r.randint(1, 5)):
                    if r.random() < 0.35:
                        ops.append(["bad", r.randrange(200)])
                    ops += edgar_ops(r, 1, companies)
                    if r.random() < 0.3:
                        ops.append(["change", r.randrange(companies)])
                    if r.random() < 0.3:
                        ops.append(["wait", r.choice((10, 3600, 90000))])
                lives.append(ops)
            yield self.job("edgar", i, r, universes=[], mode="select", edgar={"seed": r.randrange(2000), "companies": companies, "growing": r.random() < 0.3}, lives=lives,
                           cfg=machine_cfg(r))

    def nontrivial(self, job, res):
        return sum(res["probes"].get(k, 0) for k in ("right filing", "nothing matches", "invalid arguments")) >= 2


class EdgarFaults(Plan):
    """C13"""
    level = "fault_enumeration"
    rule = ("a case is one history of open_edgar calls, some of them concurrent, under kills, power losses, disk and network faults, then fault-free calls that must all succeed; "
            "non-trivial = a fault fired or calls were interleaved; distinct = event-log digest")

    def first(self):
        r = self.r
        for i in range(self.n(3, 24)):
            ops = [["call", 0, "10-K", None], ["change", 0], ["wait", 90000], ["call", 0, "10-K", None]]
            yield self.job("edgar", i, r, universes=[], mode="fault", edgar={"seed": i, "companies": 1, "growing": True}, lives=[ops, [["wait", 90000], ["change", 0], ["call", 0, "10-Q", None]]],
                           script={}, trace=True, sweep=True, cfg={"bufsize": r.choice((256, 8192))})
        for i in range(self.n(800, 16000)):
            yield edgar_faults(self, i, r, "fault")

    def follow(self, job, res):
        if not job.get("sweep"):
            return
        r = random.Random("sweep %s %s" % (self.seed, job["seed"]))
        counts, todo = {}, []
        for e in res["log"]:
            a = e[1]
            if e[2] == "fs":
                i = counts[a] = counts.get(a, -1) + 1
                if not a.startswith("L"):
                    continue
                for name in AT.get(e[3], ()):
                    if e[3] in CHANGES or r.random() < 0.15:
                        todo.append(("%s:fs%d" % (a, i), fault_at(r, e[3], name)))
        reqs = {}
        for q in res["requests"]:
            i = reqs[q["actor"]] = reqs.get(q["actor"], -1) + 1
            if q["actor"].startswith("L"):
                for name in NET:
                    todo.append(("%s:net%d" % (q["actor"], i), net_fault(r, name)))
        cap = self.n(260, 600)
        if len(todo) > cap:
            todo = [todo[j] for j in sorted(r.sample(range(len(todo)), cap))]
        for key, f in todo:
            j = {k: v for k, v in job.items() if k not in ("trace", "sweep")}
            j["w"] = r.randrange(WORKERS)
            j["script"] = {key: f}
            yield j

    def nontrivial(self, job, res):
        return res["schedule"] is not None or any(k.startswith("fault.") for k in res["stats"])


# ---------------------------------------------------------------------------------- queries

GETS = ("get_all_facts", "get_all_report_elements", "get_all_concepts", "get_all_abstracts", "get_all_line_items", "get_all_hypercubes", "get_all_dimensions", "get_all_members",
        "get_all_physical_networks", "get_all_components", "get_all_component_uris", "get_all_errors", "get_all_reported_concepts", "get_all_labels", "get_all_core_facts")
LANGUAGES = ("de", "en", ["de"], ["en"], ["en-US"], ["fr", "de"], ["de-CH"], ["zz"], [], ["en", "de"], ["EN"])

MORE_LANGUAGES = (["fr-FR"], ["it-IT", "de"], "es-ES", ["de-DE"], ["en-US", "fr-FR"], ["fr", ""], ["", "de"], ["zz", "de-DE"], ["it"], "en-GB", ["es", "en-US", "de"])


def settings(r):
    k = {}
    if r.random() < 0.7:
        k["languages"] = r.choice(LANGUAGES)
    for name, p in (("match_locale", 0.4), ("allow_mixed", 0.5), ("allow_default", 0.3), ("allow_report_language", 0.3), ("allow_system_language", 0.25)):
        if r.random() < p:
            k[name] = r.random() < 0.5
    return k


def query(r):
    x = r.random()
    if x < 0.06:
        return ["everything"]
    if x < 0.14:
        return ["get", r.choice(GETS)]
    if x < 0.44:
        kind = r.choice(("fact_table", "core_fact_table", "components", "report_elements"))
        k = {a: b for a, b in settings(r).items() if r.random() < 0.7}
        return ["export", kind, k]
    if x < 0.48:
        return ["labels", r.random() < 0.5]
    if x < 0.53:
        return ["languages", r.choice(LANGUAGES + (None,)), r.random() < 0.5, r.random() < 0.5, r.random() < 0.5]
    if x < 0.56:
        return ["param", r.choice((None, True, False, "x")), r.choice(("match_locale", "allow_default", "allow_mixed", "allow_system_language", "allow_report_language"))]
    if x < 0.60:
        return ["errors", r.choice(("area", "severity")), r.randrange(9)]
    if x < 0.68:
        return ["fact", r.randrange(30), r.choice(("int", "float", "bool", "value", "dict", "iter", "print", "core", "aspects", "all"))]
    if x < 0.76:
        h = r.choice(("labels", "main", "has", "dict", "str"))
        return ["element", r.randrange(30), h] + ([r.choice(("en", "de", "label", "terseLabel"))] if h == "has" else [])
    if x < 0.84:
        return [r.choice(("element named", "concept named", "facts named", "facts of")), r.randrange(30), r.choice(("qname", "prefixed", "clark", "local", "other"))]
    if x < 0.91:
        return ["component", r.randrange(8), r.choice(("networks", "dict", "print", "consistent", "all", "missing"))]
    if x < 0.97:
        return ["network", r.randrange(12), r.choice(("nodes", "roles", "root", "dict", "print", "down", "all"))]
    return ["facts printed", r.randrange(5)]


class Reading(Plan):
    """C15"""
    rule = ("a case is one seeded interleaving of 1-4 threads querying and exporting one filing; every answer must equal the one a freshly opened filing gives to that query asked "
            "first, and the filing must be unchanged at the end; non-trivial = at least four answers were judged; distinct = event-log digest and schedule")

    def first(self):
        r = self.r
        pool = self.pool(self.n(32, 160), bad=lambda q: q.choice((0, 0, 1)), dims=lambda q: q.choice((0, 1)), lbs=lambda q: q.choice((1, 3, 7, 7)))
        menus = {}
        for i in range(self.n(420, 9000)):
            k = i % len(pool)
            # queries of a filing come from a menu, so that the answers in isolation are computed once
            e = r.randrange(2)
            s = None if r.random() < 0.5 else menus.setdefault((k, "s", r.randrange(2)), settings(r))
            g = [] if r.random() < 0.75 else [menus.setdefault((k, "g"), settings(r))]
            menu = menus.setdefault((k, "m"), [query(r) for _ in range(self.n(26, 40))])
            n = r.choice((1, 1, 2, 2, 3, 4))
            threads = [[r.choice(menu) for _ in range(r.randint(2, 7 if n > 1 else 14))] for _ in range(n)]
            if n == 1 and r.random() < 0.4:
                # the settings change between the queries
                sets = menus.setdefault((k, "sets"), [["set", settings(r)], ["global", settings(r)], ["global", {"only languages": r.choice(LANGUAGES)}]])
                for _ in range(r.choice((1, 2, 3))):
                    threads[0].insert(r.randrange(1, len(threads[0]) + 1), r.choice(sets))
            c = {}
            if r.random() < 0.3:
                c["lang"] = menus.setdefault((k, "l"), r.choice(("", "de_DE.UTF-8", "C", "fr_FR.UTF-8", "en_US.UTF-8")))
            rates = {}
            if n > 1:
                rates["preempt"] = r.choice((0.05, 0.2, 0.5))
                if r.random() < 0.5:
                    c["call_stride"] = r.choice((1, 7, 31))
                else:
                    c["line_stride"] = r.choice((1, 5, 29))
            yield self.job("reading", k, r, universes=[pool[k]], entry=e, threads=threads, settings=s, globals=g, cfg=c, rates=rates)

    def nontrivial(self, job, res):
        return res["probes"].get("answers judged", 0) >= 4


class Independent(Plan):
    """C14"""
    rule = ("a case is one seeded history (1-3 threads) of opens, settings, queries, failures and discards over several filings in one process; every answer must equal the one the "
            "filing gives alone in a process of its own; non-trivial = answers judged while another filing had been opened; distinct = event-log digest and schedule")

    def first(self):
        r = self.r
        pool = self.pool(self.n(32, 160), bad=lambda q: q.choice((0, 0, 1)), dims=lambda q: q.choice((0, 1)), lbs=lambda q: q.choice((1, 3, 7, 7)))
        menus = {}
        for i in range(self.n(420, 9000)):
            k = i % len(pool)
            specs = [pool[k], pool[(k + 8) % len(pool)]]
            menu = menus.setdefault((k % 8, "m"), [query(r) for _ in range(self.n(22, 40))])
            sets = menus.setdefault((k, "s"), [settings(r) for _ in range(2)])
            globs = menus.setdefault((k, "g"), [settings(r) for _ in range(2)] + ([{"only languages": r.choice(LANGUAGES)}] if r.random() < 0.3 else []))
            n = r.choice((1, 1, 1, 2, 3))
            actors = []
            for _ in range(n):
                ops = [["open", 0, r.randrange(4)]]
                for _ in range(r.randint(3, 12 if n == 1 else 7)):
                    x = r.random()
                    if x < 0.2:
                        ops.append(["open", r.randrange(3), r.randrange(4)])
                    elif x < 0.32:
                        ops.append(["set", r.randrange(3), r.choice(sets)])
                    elif x < 0.38 and n == 1:
                        ops.append(["global", r.choice(globs)])
                    elif x < 0.44:
                        ops.append(["drop", r.randrange(3)])
                    elif x < 0.5:
                        ops.append(["bad", r.randrange(3)])
                    else:
                        ops.append(["ask", r.randrange(3), r.choice(menu)])
                ops += [["ask", s, r.choice(menu)] for s in range(3)] + [["ask", 0, ["everything"]]]
                actors.append(ops)
            c, rates = {}, {}
            if r.random() < 0.2:
                c["lang"] = menus.setdefault((k, "l"), r.choice(("", "de_DE.UTF-8", "C", "fr_FR.UTF-8")))
            if n > 1:
                rates["preempt"] = r.choice((0.05, 0.2, 0.5))
                if r.random() < 0.5:
                    c["call_stride"] = r.choice((1, 7, 31))
                else:
                    c["line_stride"] = r.choice((1, 5, 29))
            yield self.job("independent", k, r, universes=specs, actors=actors, globals=[r.choice(globs)] if r.random() < 0.2 else [], cfg=c, rates=rates)

    def nontrivial(self, job, res):
        return res["probes"].get("answers judged", 0) >= 2


class Contained(Plan):
    """C16"""
    rule = ("a case opens ordinary and hostile filings under disk and network faults and kills; the whole simulated disk outside brel's caches is compared before and after; "
            "non-trivial = something was opened or raised; distinct = event-log digest")

    def first(self):
        r = self.r
        pool = self.pool(self.n(16, 64))
        for i in range(self.n(800, 16000)):
            k = i % len(pool)
            x = r.random()
            rates = {}
            if x < 0.35:
                rates = swarm(r, DISK)
            elif x < 0.7:
                rates = swarm(r, DISK if r.random() < 0.3 else (), NET)
            c = machine_cfg(r)
            if r.random() < 0.3:
                c["cwd"] = r.choice(("/sim/home", "/sim/tmp", "/sim", "/sim/home/notes"))
            hostile = r.randrange(1 << 20) if r.random() < 0.6 else None
            yield self.job("contained", k, r, universes=[pool[k]], hostile=hostile, edgar={"seed": r.randrange(200), "companies": 2} if r.random() < 0.25 else None,
                           lives=[{"open": opens(r, 4, 12)} for _ in range(r.choice((1, 2, 2)))], rates=rates, cfg=c)

    def nontrivial(self, job, res):
        return any(k.startswith("open ") for k in res["probes"])


BROKEN = ("<xbrl><unclosed></xbrl>", "", "\x00\x01\x02", "<?xml version='1.0' encoding='UTF-16'?><a/>", "<html><body>not xbrl</body></html>",
          '<?xml version="1.0"?><xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:import schemaLocation="http://broken.example.org/x.xsd"/></xs:schema>',
          '<?xml version="1.0"?><xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:import schemaLocation="missing.xsd"/></xs:schema>',
          '<?xml version="1.0"?><xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:import schemaLocation="pic.png"/><xs:import schemaLocation="missing.xsd"/></xs:schema>',
          '<?xml version="1.0"?><xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:import schemaLocation="pic"/></xs:schema>')


class Handles(Plan):
    """C17"""
    rule = ("a case is one history of opens, of good, broken and missing filings, under disk and network faults; after each call no file and no unread response may be left open; "
            "non-trivial = a fault fired or a call raised; distinct = event-log digest")
    level = "fault_enumeration"

    def first(self):
        r = self.r
        pool = self.pool(self.n(16, 64))
        names = ("/sim/docs/bad/x%d.xml", "/sim/docs/bad/x%d.xhtml", "/sim/docs/bad/x%d.htm", "http://broken.example.org/x%d.xsd", "http://broken.example.org/x%d.xml", "/sim/docs/bad/x%d.zip",
                 "/sim/docs/bad%d/META-INF/catalog.xml")
        sweep = self.pool(self.n(3, 20))
        for i, s in enumerate(sweep):
            if i % 3 != 2:
                s["knobs"]["kind"] = "remote"
                s["knobs"]["catalog"] = 0
            yield self.job("handles", i, r, universes=[s], lives=[{"open": [0, 0]}], script={}, trace=True, sweep=True, cfg={})
        for i in range(self.n(700, 14000)):
            k = i % len(pool)
            broken = [[r.choice(names) % j, r.choice(BROKEN)] for j in range(r.choice((0, 0, 1, 3)))]
            broken = [[p, r.randrange(1 << 20) if p.endswith(".zip") and r.random() < 0.8 else b] for p, b in broken]
            disk = [x for x in DISK if x not in ("kill", "power")]
            x = r.random()
            rates = swarm(r, disk) if x < 0.4 else swarm(r, disk if r.random() < 0.3 else (), NET) if x < 0.85 else {}
            yield self.job("handles", k, r, universes=[pool[k]], broken=broken, edgar={"seed": r.randrange(200), "companies": 2} if r.random() < 0.25 else None,
                           lives=[{"open": opens(r, 5, 12)} for _ in range(r.choice((1, 1, 2)))], rates=rates, cfg=machine_cfg(r))

    def follow(self, job, res):
        if not job.get("sweep"):
            return
        r = random.Random("sweep %s %s" % (self.seed, job["seed"]))
        todo = []
        ops = [e for e in res["log"] if e[1] == "P0" and e[2] == "fs"]
        for i, e in enumerate(ops):
            for name in AT.get(e[3], ()):
                if name not in ("kill", "power"):
                    todo.append(("P0:fs%d" % i, fault_at(r, e[3], name)))
        for i in range(sum(1 for q in res["requests"] if q["actor"] == "P0")):
            for name in NET:
                todo.append(("P0:net%d" % i, net_fault(r, name)))
        cap = self.n(200, 600)
        if len(todo) > cap:
            todo = [todo[j] for j in sorted(r.sample(range(len(todo)), cap))]
        for key, f in todo:
            j = {k: v for k, v in job.items() if k not in ("trace", "sweep")}
            j["w"] = r.randrange(WORKERS)
            j["script"] = {key: f}
            yield j

    def nontrivial(self, job, res):
        return bool(res["probes"].get("open raise")) or any(k.startswith("fault.") for k in res["stats"])


class Texts(Plan):
    """C22"""
    rule = ("a case is one seeded history (1-3 threads) of settings of calls, filings, library and system, of opens and of exports; every export, list of languages and setting must be what a reference "
            "model derives from the settings then in force; non-trivial = at least four answers were judged; distinct = event-log digest and schedule")

    def first(self):
        r = self.r
        pool = self.pool(self.n(40, 200), bad=lambda q: q.choice((0, 0, 1)), dims=lambda q: q.choice((0, 1)), lbs=lambda q: q.choice((1, 3, 7, 7)))
        locales = ("", "C", "de_DE.UTF-8", "fr_FR.UTF-8", "en_US.UTF-8", "it_IT.UTF-8", "de_CH.UTF-8", "de_DE", "es_ES.UTF-8", "pt_BR.UTF-8", "POSIX")

        def some():
            k = settings(r)
            if r.random() < 0.4:
                k["languages"] = r.choice(MORE_LANGUAGES)
            return k

        def ask(slots):
            x = r.random()
            if x < 0.1:
                q = ["languages", r.choice(LANGUAGES + MORE_LANGUAGES + (None,)), r.random() < 0.5, r.random() < 0.5, r.random() < 0.5]
            elif x < 0.16:
                q = ["param", r.choice((None, None, True, False)), r.choice(("match_locale", "allow_default", "allow_mixed", "allow_system_language", "allow_report_language"))]
            else:
                k = {} if r.random() < 0.3 else some()
                q = ["export", r.choice(("fact_table", "core_fact_table", "components", "report_elements")), k]
            return ["ask", r.choice(slots), q]
        for i in range(self.n(900, 20000)):
            k = i % len(pool)
            specs = [pool[k]] if r.random() < 0.5 else [pool[k], pool[(k + 8) % len(pool)]]
            n = r.choice((1, 1, 1, 2, 3))
            actors = []
            for j in range(n):
                own = [10 + j, 20 + j]
                ops = [["open", own[0], r.randrange(4)]] if r.random() < 0.5 else []
                for _ in range(r.randint(4, 12 if n == 1 else 7)):
                    x = r.random()
                    if x < 0.06:
                        ops.append(["open", r.choice(own), r.randrange(4)])
                    elif x < 0.22:
                        ops.append(["set", r.choice([0, 1] + own if n == 1 else own), some()])
                    elif x < 0.34 and n == 1:
                        ops.append(["global", some() if r.random() < 0.7 else {"only languages": r.choice(LANGUAGES + MORE_LANGUAGES)}])
                    elif x < 0.42 and n == 1:
                        ops.append(["locale", r.choice(locales)])
                    else:
                        ops.append(ask([0, 0, 1] + own))
                actors.append(ops + [ask([0]), ask([1])])
            c = {"lang": r.choice(locales)}
            rates = {}
            if n > 1:
                rates["preempt"] = r.choice((0.05, 0.2, 0.5))
                if r.random() < 0.5:
                    c["call_stride"] = r.choice((1, 7, 31))
                else:
                    c["line_stride"] = r.choice((1, 5, 29))
            globs = [some() for _ in range(r.choice((0, 0, 1)))]
            yield self.job("exports", k, r, universes=specs, open=[r.randrange(4), r.randrange(4)], actors=actors, globals=globs, cfg=c, rates=rates)

    def nontrivial(self, job, res):
        return res["probes"].get("answers judged", 0) >= 4


PLANS = {"C01": Crash, "C02": Download, "C03": Recover, "C04": Reopen, "C05": Concurrent, "C06": Local, "C07": Near, "C08": Same, "C09": Whole, "C10": Fair, "C11": Age,
         "C12": Select, "C13": EdgarFaults, "C14": Independent, "C15": Reading, "C16": Contained, "C17": Handles, "C22": Texts}

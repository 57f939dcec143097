#!/opt/venv/bin/python
"""Decides one property by seeded simulation. See DESIGN.md.

check.py C01 [--tier quick|thorough] [--seed N] [--repo DIR] [--replay FILE] [--jobs N] [--no-minimise]
exit 0: the property held on everything explored; 1: violated (VIOLATION line); 2: the check itself failed.
"""
import argparse
import hashlib
import json
import os
import pickle
import queue
import selectors
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "sim"))
import minimise  # noqa: E402
import plans  # noqa: E402
import snap  # noqa: E402

PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JOB_LIMIT = 400.0


class Broken(Exception):
    """the check itself does not work"""


class Worker:
    """one process that runs simulations one after the other"""

    def __init__(self, repo, scratch, hashseed):
        self.repo, self.scratch, self.hashseed = repo, scratch, hashseed
        self.proc = None
        self.fatal = None

    def start(self):
        os.makedirs(self.scratch, exist_ok=True)
        env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "PYTHONHASHSEED": str(self.hashseed), "SIM_REPO": self.repo, "SIM_SCRATCH": self.scratch,
               "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
        self.errors = open(os.path.join(self.scratch, "stderr"), "ab")
        self.proc = subprocess.Popen([PYTHON, os.path.join(HERE, "sim", "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errors, env=env,
                                     start_new_session=True, cwd=self.scratch)
        got = self.recv(120)
        if got is None or "ready" not in got:
            why = (got or {}).get("fatal") or self.said()
            self.stop()
            raise Broken("a worker does not start: %s" % why)

    def said(self):
        try:
            with open(os.path.join(self.scratch, "stderr"), "rb") as f:
                return f.read()[-2000:].decode("utf-8", "replace")
        except OSError:
            return ""

    def recv(self, limit):
        deadline = time.monotonic() + limit
        fd = self.proc.stdout.fileno()
        sel = selectors.DefaultSelector()
        sel.register(fd, selectors.EVENT_READ)
        buf, need = bytearray(), None
        try:
            while True:
                left = deadline - time.monotonic()
                if left <= 0 or not sel.select(left):
                    return None
                b = os.read(fd, 1 << 20)
                if not b:
                    return None
                buf += b
                if need is None and len(buf) >= 8:
                    need = struct.unpack("<Q", bytes(buf[:8]))[0]
                if need is not None and len(buf) >= 8 + need:
                    return pickle.loads(bytes(buf[8:]))
        finally:
            sel.close()

    def run(self, job, limit=JOB_LIMIT):
        """the result of a job; {"harness": text} if the harness failed"""
        for attempt in (1, 2):
            if self.proc is None:
                self.start()
            try:
                data = pickle.dumps(job)
                self.proc.stdin.write(struct.pack("<Q", len(data)) + data)
                self.proc.stdin.flush()
                res = self.recv(limit)
            except (BrokenPipeError, OSError):
                res = None
            if res is None:
                res = {"harness": "the worker died or did not answer: %s" % self.said()}
            if "harness" not in res:
                return res
            self.stop()
        return res

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            # process lives have process groups of their own, but die with their pipe
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.errors.close()
            self.proc = None


class Pool:
    def __init__(self, repo, scratch, n, hashseeds=None):
        self.workers = [Worker(repo, os.path.join(scratch, "w%d" % i), (hashseeds or range(1, n + 1))[i]) for i in range(n)]
        self.queues = [queue.SimpleQueue() for _ in range(n)]
        self.done = queue.SimpleQueue()
        self.halt = threading.Event()
        self.pending = 0
        self.threads = []
        for i in range(n):
            t = threading.Thread(target=self.serve, args=(i,), daemon=True)
            t.start()
            self.threads.append(t)

    def serve(self, i):
        w = self.workers[i]
        while True:
            job = self.queues[i].get()
            if job is None:
                w.stop()
                return
            if self.halt.is_set():
                self.done.put((job, None))
                continue
            try:
                res = w.run(job)
            except Broken as e:
                res = {"harness": str(e)}
            except Exception as e:
                res = {"harness": repr(e)}
            self.done.put((job, res))

    def put(self, job):
        self.pending += 1
        self.queues[job["w"] % len(self.queues)].put(job)

    def get(self, limit):
        job, res = self.done.get(timeout=limit)
        self.pending -= 1
        return job, res

    def close(self):
        self.halt.set()
        for q in self.queues:
            q.put(None)
        for w in self.workers:
            p = w.proc
            if p is not None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
        for t in self.threads:
            t.join(10)


# ---------------------------------------------------------------------------------- known findings

def known_findings():
    """lines "known: property=C01 class=... contains=<text> :: <what fails>"; "fixed:" lines suppress nothing"""
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    head, _, what = line[7:].partition(" :: ")
                    d = {}
                    pid, _, rest = head.partition(" ")
                    d["property"] = pid.split("=", 1)[1]
                    cls, _, contains = rest.partition(" ")
                    d["class"] = cls.split("=", 1)[1]
                    d["contains"] = contains.split("=", 1)[1]
                    d["what"] = what
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def unlisted(pid, violations, known, met):
    out = []
    for cls, text in violations:
        k = next((k for k in known if k["property"] == pid and k["class"] == cls and k["contains"] in text), None)
        if k is None:
            out.append((cls, text))
        else:
            met.add(k["what"])
    return out


# ---------------------------------------------------------------------------------- comparing runs (C08)

def compare_group(items):
    """opens of one universe on workers with different hash seeds"""
    by = {}
    for job, res in items:
        by.setdefault(res["value"]["digest"], []).append((job, res))
    if len(by) < 2:
        return None
    (a, _), (b, _) = [x[0] for x in list(by.values())[:2]]
    return a, b


# ---------------------------------------------------------------------------------- main

def save_replay(pid, payload):
    folder = os.path.join(HERE, "replays")
    os.makedirs(folder, exist_ok=True)
    text = json.dumps(payload, indent=1, sort_keys=True)
    path = os.path.join(folder, "%s-%s.json" % (pid, hashlib.sha256(text.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def clean(job):
    return json.loads(json.dumps({k: v for k, v in job.items() if k not in ("w", "group", "sweep", "trace")}))


def replay(path, repo, scratch):
    with open(path) as f:
        p = json.load(f)
    print("property %s, class %s, found with seed %s" % (p["property"], p["class"], p.get("seed")))
    values, bad = [], []
    for k, part in enumerate(p["jobs"]):
        w = Worker(repo, os.path.join(scratch, "replay%d" % k), part["hashseed"])
        try:
            res = w.run({**part["job"], "trace": True, "full": True})
        finally:
            w.stop()
        if "harness" in res:
            print(res["harness"])
            return 2
        for n in res["notes"]:
            print("  " + n)
        for q in res["requests"]:
            print("  request t=%.3f %s %s: %s" % (q["t"], q["actor"], q["uri"], q["outcome"]))
        bad += [v for v in res["violations"]]
        values.append(res["value"])
    if p.get("compare"):
        d = snap.diff(values[0]["snapshot"], values[1]["snapshot"])
        if d:
            bad.append(("hash", "hash seed %s and %s give different filings: %s" % (p["jobs"][0]["hashseed"], p["jobs"][1]["hashseed"], d)))
    for cls, text in bad:
        print("%s: %s" % (cls, text))
    if any(cls == p["class"] for cls, _ in bad):
        print("VIOLATION property=%s replay=%s" % (p["property"], path))
        return 1
    print("the violation did not appear again")
    return 0


def explore(pid, tier, seed, repo, scratch, cap, limit_jobs, want_min):
    plan = plans.PLANS[pid](pid, tier, seed)
    known = known_findings()
    met = set()
    pool = Pool(repo, scratch, plans.WORKERS)
    t0 = time.monotonic()
    runs = lives = events = 0
    sim_time = 0.0
    seeds = set()
    stats, probes, sites, schedules, digests, trivial = {}, {}, set(), set(), set(), 0
    nontrivial = 0
    found, harness, unsimulated, samples, groups, again = [], [], {}, [], {}, []
    capped = False
    nexts = plan.first()
    exhausted = False
    submitted = 0
    backlog = []
    try:
        while True:
            # keep the queues of the workers short, so that a violation ends the search soon
            while not exhausted and pool.pending < 4 * plans.WORKERS and not found and not capped:
                if limit_jobs and submitted >= limit_jobs:
                    exhausted = True
                    break
                if backlog:
                    pool.put(backlog.pop())
                    submitted += 1
                    continue
                try:
                    pool.put(next(nexts))
                    submitted += 1
                except StopIteration:
                    exhausted = True
            while exhausted and backlog and pool.pending < 4 * plans.WORKERS and not found and not capped and not (limit_jobs and submitted >= limit_jobs):
                pool.put(backlog.pop())
                submitted += 1
            if not pool.pending:
                if backlog and not found and not capped and not (limit_jobs and submitted >= limit_jobs):
                    continue
                break
            try:
                job, res = pool.get(JOB_LIMIT * 2 + 60)
            except queue.Empty:
                raise Broken("no worker answers")
            if res is None:
                continue
            if "harness" in res:
                harness.append((job, res["harness"]))
                if len(harness) > 5:
                    pool.halt.set()
                    break
                continue
            runs += 1
            seeds.add(job.get("seed"))
            lives += res["lives"]
            events += res["events"]
            sim_time += res["sim_time"]
            for k, n in res["stats"].items():
                stats[k] = stats.get(k, 0) + n
            for k, n in res["probes"].items():
                probes[k] = probes.get(k, 0) + n
            sites.update(map(tuple, res["sites"]))
            if res["schedule"]:
                schedules.add(res["schedule"])
            for t in res["unsimulated"]:
                unsimulated[t] = unsimulated.get(t, 0) + 1
            key = res["digest"] + str(res["schedule"]) + (repr(job.get("variants")) if pid == "C08" else "")
            if key not in digests:
                digests.add(key)
                if plan.nontrivial(job, res):
                    nontrivial += 1
                    if len(samples) < 3:
                        samples.append({"job": clean({k: v for k, v in job.items()}), "script": {k: res["script"][k] for k in list(res["script"])[:12]},
                                        "digest": res["digest"], "events": res["events"]})
            if runs % 97 == 1 and len(again) < 24:
                again.append((job, res["digest"]))
            bad = unlisted(pid, res["violations"], known, met)
            if bad:
                found.append((job, res, bad))
            if "group" in job and not bad:
                g = groups.setdefault(job["group"], [])
                g.append((job, res))
                if len(g) == 3:
                    del groups[job["group"]]
                    pair = compare_group(g)
                    if pair:
                        found.append((pair, None, [("hash", "")]))
            if not found:
                backlog += list(plan.follow(job, res))
            if time.monotonic() - t0 > cap:
                capped = True
            if found:
                pool.halt.set()
        explored = time.monotonic() - t0
        # the same seed twice: is every execution repeatable?
        repeated = identical = 0
        if not found and not harness:
            for job, digest in again:
                pool.put(job)
            while pool.pending:
                job, res = pool.get(JOB_LIMIT * 2 + 60)
                if res is not None and "harness" not in res:
                    repeated += 1
                    identical += any(d == res["digest"] for j, d in again if j is job)
    finally:
        pool.close()
    out = []
    if found:
        found.sort(key=lambda f: (f[1] is None, len(f[1]["script"]) if f[1] else 0, len(repr(f[0]))))
        seen = set()
        for job, res, bad in found:
            classes = {c for c, _ in bad}
            if classes <= seen or len(out) >= 2:
                continue
            seen |= classes
            out.append(report(pid, seed, repo, scratch, job, res, bad, want_min and not out))
    cov = {
        "evaluations": runs, "distinct_nontrivial": nontrivial, "rule": plan.rule, "samples": samples, "distinct_executions": len(digests),
        "process_lives": lives, "events": events, "runs_per_hour": round(runs / explored * 3600) if explored else 0,
        "seeds": len(seeds), "seeds_per_hour": round(len(seeds) / explored * 3600) if explored else 0, "simulated_seconds": round(sim_time, 1),
        "simulated_hours_per_hour": round(sim_time / explored, 1) if explored else 0,
        "faults_fired": {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("fault.")},
        "fault_sites": sorted("%s at %s" % (b, a) for a, b in sites if a != "response"),
        "operations": {k[3:]: n for k, n in sorted(stats.items()) if k.startswith("op.")},
        "scheduling": {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("sched.")},
        "distinct_interleavings": len(schedules), "probes": dict(sorted(probes.items())),
        "repeated_runs": repeated, "repeated_runs_identical": identical, "stopped_by_time": capped,
        "real_components": ["brel (every module)", "lxml", "html5lib", "pandas", "requests (sessions, redirects, body handling)", "urllib3 response parsing",
                            "http.client response parsing", "fs.osfs", "json", "tempfile", "threading locks of brel"],
        "simulated_components": ["disk below os/io (page cache, durability, errors)", "network below requests.adapters.HTTPAdapter.send (DNS, TCP, TLS, servers)",
                                 "clock, sleep and time zone", "thread scheduling", "process crashes and power", "object identity hashes", "directory order", "random temporary names"],
    }
    if unsimulated:
        cov["unsimulated_calls"] = unsimulated
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": plan.level, "coverage": cov,
                "assumptions": ["seeded search samples executions: a clean run is evidence, not proof", "the simulated disk and network behave as DESIGN.md says"],
                "wall_s": round(time.monotonic() - t0, 2), "violations": len(out)}
    return evidence, out, harness, met, known


def report(pid, seed, repo, scratch, job, res, bad, want_min):
    """minimise, replay, save"""
    if isinstance(job, tuple):          # two runs that should have been alike
        a, b = job
        parts = [{"hashseed": x["w"] % plans.WORKERS + 1, "job": clean(x)} for x in (a, b)]
        cls = "hash"
        if want_min:
            parts = minimise.pair(Worker, repo, scratch, parts, time.monotonic() + 60)
        text = minimise.pair_text(Worker, repo, scratch, parts)
        payload = {"property": pid, "class": cls, "text": text or "the runs differed while searching", "seed": seed, "compare": True, "jobs": parts, "reproduced": bool(text)}
        return payload, save_replay(pid, payload)
    cls = bad[0][0]
    hashseed = job["w"] % plans.WORKERS + 1
    first = clean(job)
    small = dict(first)
    if small.get("script") is None and "script" in res:
        small["script"] = json.loads(json.dumps(res["script"]))
    text, ok = bad[0][1], None
    try:
        small, text2, ok = minimise.single(Worker, repo, scratch, small, first, cls, hashseed, time.monotonic() + (75 if want_min and cls not in ("hang", "died") else 0))
        text = text2 or text
    except Exception as e:
        ok = False
        text += " (minimisation failed: %r)" % (e,)
    payload = {"property": pid, "class": cls, "text": text, "seed": seed, "jobs": [{"hashseed": hashseed, "job": small}], "reproduced": bool(ok),
               "found_as": first}
    return payload, save_replay(pid, payload)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--repo", default=os.environ.get("BREL_REPO") or "/repo")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--cap", type=float, default=0)
    ap.add_argument("--no-minimise", action="store_true")
    ap.add_argument("--evidence", default=None)
    a = ap.parse_args()
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (1 << 30) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="brelsim.", dir=base)
    try:
        if a.replay:
            return replay(a.replay, os.path.abspath(a.repo), scratch)
        cap = a.cap or (240.0 if a.tier == "quick" else 780.0)
        print("property %s, tier %s, VERIF_SEED %d" % (a.property, a.tier, a.seed), flush=True)
        evidence, out, harness, met, known = explore(a.property, a.tier, a.seed, os.path.abspath(a.repo), scratch, cap, a.jobs, not a.no_minimise)
        path = a.evidence or os.path.join(HERE, "evidence", a.property + ".json")
        os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
        with open(path, "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True, default=str)
            f.write("\n")
        c = evidence["coverage"]
        print("%d runs (%d distinct and non-trivial), %d lives, %.0f simulated seconds, %d interleavings, %.1f s, faults: %s" % (
            c["evaluations"], c["distinct_nontrivial"], c["process_lives"], c["simulated_seconds"], c["distinct_interleavings"], evidence["wall_s"],
            sum(c["faults_fired"].values())))
        for k in known:
            if k["property"] == a.property:
                print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
        for payload, rp in out:
            print("%s: %s%s" % (payload["class"], payload["text"], "" if payload["reproduced"] else " (not reproduced by the replay)"))
            print("VIOLATION property=%s replay=%s" % (a.property, rp))
        if out:
            return 1
        for job, text in harness[:3]:
            print("the harness failed: %s\n%s" % (clean(job), text), file=sys.stderr)
        return 2 if harness else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2        # neither 0 nor 1: the check itself failed
    sys.exit(code)

"""Makes a violating run small: fewer faults, fewer operations, smaller filings."""
import copy
import os
import queue
import threading
import time

import gen
import snap

PARALLEL = 8


class Tester:
    """does a job still show a violation of the class?"""

    def __init__(self, Worker, repo, scratch, cls, hashseed):
        self.cls = cls
        self.workers = [Worker(repo, os.path.join(scratch, "min%d" % i), hashseed) for i in range(PARALLEL)]
        self.tests = 0

    def one(self, w, job):
        try:
            res = w.run({**job, "w": 0})
        except Exception:
            return None
        if "harness" in res:
            return None
        hit = [t for c, t in res["violations"] if c == self.cls]
        return (hit[0], res) if hit else None

    def many(self, jobs):
        """(index, (text, result)) of the first of at most PARALLEL jobs that fails, or None"""
        out = [None] * len(jobs)
        self.tests += len(jobs)

        def run(i):
            out[i] = self.one(self.workers[i], jobs[i])
        ts = [threading.Thread(target=run, args=(i,)) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return next(((i, x) for i, x in enumerate(out) if x), None)

    def close(self):
        for w in self.workers:
            w.stop()


def first_failing(t, candidates, deadline):
    batch = []
    for c in candidates:
        batch.append(c)
        if len(batch) == PARALLEL:
            if time.monotonic() > deadline:
                return None
            hit = t.many(batch)
            if hit:
                return batch[hit[0]], hit[1]
            batch = []
    if batch and time.monotonic() < deadline:
        hit = t.many(batch)
        if hit:
            return batch[hit[0]], hit[1]
    return None


def without(job, key, value):
    j = dict(job)
    j[key] = value
    return j


def script_candidates(job):
    s = job.get("script") or {}
    keys = sorted(s)
    if not keys:
        return
    yield without(job, "script", {})
    n = len(keys)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            keep = keys[:i] + keys[i + size:]
            yield without(job, "script", {k: s[k] for k in keep})
        size //= 2


def list_candidates(x):
    """smaller versions of nested lists and of the values in them"""
    if isinstance(x, list):
        if len(x) > 1:
            n = len(x)
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    y = x[:i] + x[i + size:]
                    if y:
                        yield y
                size //= 2
        for i, e in enumerate(x):
            for f in list_candidates(e):
                yield x[:i] + [f] + x[i + 1:]
    elif isinstance(x, dict):
        for k in sorted(x):
            if x[k] in (None, False, 0):
                continue
            if isinstance(x[k], (list, dict)):
                for f in list_candidates(x[k]):
                    yield {**x, k: f}
            else:
                yield {**x, k: None}


STRUCTURE = ("lives", "steps", "opens", "threads", "actors", "variants", "broken", "universes", "globals", "warm")


def job_candidates(job):
    for k in STRUCTURE:
        if job.get(k):
            if k == "universes":
                if len(job[k]) > 1:
                    for i in range(len(job[k])):
                        yield without(job, k, job[k][:i] + job[k][i + 1:])
                continue
            for v in list_candidates(job[k]):
                yield without(job, k, v)
            if k in ("broken", "globals", "warm"):
                yield without(job, k, [] if k != "warm" else None)
    for k in sorted(job.get("cfg") or {}):
        yield without(job, "cfg", {a: b for a, b in job["cfg"].items() if a != k})
    for k in ("again", "edgar", "hostile", "redirects", "clear", "settings"):
        if job.get(k) is not None and not (k == "edgar" and job["scenario"] == "edgar"):
            yield without(job, k, None)
    for i, spec in enumerate(job.get("universes") or []):
        for k, v in sorted(spec["knobs"].items()):
            small = gen.KNOBS.get(k) if k in ("kind",) else 0 if isinstance(v, int) else v
            options = []
            if k == "kind":
                continue
            if k == "shape":
                options = ["chain"] if v != "chain" else []
            elif k == "lbs":
                options = [b for b in (0, 1, 2) if b < v]
            elif k in ("els", "instances"):
                options = [x for x in (1, 2) if x < v]
            elif isinstance(v, (int, bool)) and v:
                options = sorted({0, 1, v // 2} - {v})
            for o in options:
                if o < v if not isinstance(v, str) else True:
                    yield without(job, "universes", job["universes"][:i] + [{"seed": spec["seed"], "knobs": {**spec["knobs"], k: o}}] + job["universes"][i + 1:])
    for k, ks in (("edgar", ("companies",)), ("near", ("n", "entries"))):
        if isinstance(job.get(k), dict):
            for a in ks:
                v = job[k].get(a) or 0
                for o in sorted({1, v // 2, v - 1}):
                    if 0 < o < v:
                        yield without(job, k, {**job[k], a: o})


def single(Worker, repo, scratch, small, original, cls, hashseed, deadline):
    """(job, text, reproduced)"""
    t = Tester(Worker, repo, scratch, cls, hashseed)
    try:
        hit = t.many([small])
        if not hit and original is not small:
            # the script alone did not show it again; the seed may
            hit = t.many([original])
            if hit:
                return original, hit[1][0], True
        if not hit:
            return small, None, False
        text = hit[1][0]
        job = small
        while time.monotonic() < deadline:
            better = first_failing(t, script_candidates(job), deadline) or first_failing(t, job_candidates(job), deadline)
            if not better:
                break
            job, (text, res) = better
            # keys of the script that no longer apply
            if job.get("script"):
                job = without(job, "script", dict(job["script"]))
        hit = t.many([job])
        return job, hit[1][0] if hit else text, bool(hit)
    finally:
        t.close()


def values(Worker, repo, scratch, parts):
    out = [None, None]

    def run(i):
        w = Worker(repo, os.path.join(scratch, "pair%d" % i), parts[i]["hashseed"])
        try:
            res = w.run({**parts[i]["job"], "full": True, "w": 0})
            out[i] = None if "harness" in res else res["value"]["snapshot"]
        finally:
            w.stop()
    ts = [threading.Thread(target=run, args=(i,)) for i in range(2)]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    return out


def pair_text(Worker, repo, scratch, parts):
    a, b = values(Worker, repo, scratch, parts)
    if a is None or b is None:
        return None
    d = snap.diff(a, b, "filing")
    return d and "with hash seed %s and %s the same bytes give different filings: %s" % (parts[0]["hashseed"], parts[1]["hashseed"], d)


def pair(Worker, repo, scratch, parts, deadline):
    """one variant is enough; then smaller filings"""
    def both(job):
        return [{"hashseed": p["hashseed"], "job": job} for p in parts]
    job = parts[0]["job"]
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for c in job_candidates(job):
            if time.monotonic() > deadline:
                break
            if pair_text(Worker, repo, scratch, both(c)):
                job, progress = c, True
                break
    return both(job)

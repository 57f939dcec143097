#!/opt/venv/bin/python
"""Shows that the simulator is deterministic: jobs of every plan run on several workers, in other
processes, in another order, beside other jobs, and (where the property allows) under another hash
seed; every run of a job must give the same event digest, notes and violations.

selftest.py [--each N] [--seed N] [--repo DIR]
"""
import argparse
import os
import random
import shutil
import sys
import tempfile
import threading
import time

import check
from check import plans


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--each", type=int, default=12)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="brelself.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    jobs = []
    for pid in sorted(plans.PLANS):
        if a.only and pid not in a.only.split(","):
            continue
        it = plans.PLANS[pid](pid, "quick", a.seed).first()
        pool = [j for _, j in zip(range(a.each * 8), it)]
        random.Random("selftest %s %s" % (pid, a.seed)).shuffle(pool)
        for j in pool[:a.each]:
            j = {k: v for k, v in j.items() if k not in ("w", "group", "sweep")}
            jobs.append((pid, j))
    t0 = time.monotonic()
    results = [[] for _ in jobs]
    # (hash seed, order): the same hash seed twice in different processes and orders, and another one
    rounds = [(1, 1), (1, 2), (77, 3)]
    lanes = []
    for hs, order in rounds:
        ids = list(range(len(jobs)))
        random.Random("order %s" % order).shuffle(ids)
        n = (2, 3, 3)[order - 1]
        for k in range(n):
            lanes.append((hs, order, k, ids[k::n]))

    def lane(hs, order, k, ids):
        w = check.Worker(a.repo, os.path.join(scratch, "w%d.%d" % (order, k)), hs)
        try:
            for i in ids:
                res = w.run(dict(jobs[i][1], trace=True))
                results[i].append((order, res))
        finally:
            w.stop()
    try:
        threads = [threading.Thread(target=lane, args=x) for x in lanes]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    bad = runs = 0
    for (pid, job), res in zip(jobs, results):
        runs += len(res)
        first = None
        for order, r in sorted(res, key=lambda x: x[0]):
            if "harness" in r:
                print("%s harness: %s" % (pid, r["harness"][-800:]))
                bad += 1
                continue
            key = (r["digest"], r["violations"], r["notes"], r["schedule"])
            if first is None:
                first = (key, r)
            elif key != first[0]:
                bad += 1
                print("%s: round %d differs: %s" % (pid, order, check.clean(job)))
                x, y = first[1]["log"], r["log"]
                for i in range(max(len(x), len(y))):
                    p, q = (x[i] if i < len(x) else None), (y[i] if i < len(y) else None)
                    if p != q:
                        print("   event %d: %s | %s" % (i, p, q))
                        break
                else:
                    print("   same log; ", first[0][1:], key[1:])
    print("%d jobs, %d runs, %d differences, %.0f s" % (len(jobs), runs, bad, time.monotonic() - t0))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

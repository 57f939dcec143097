#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and the list of claimed properties"""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import plans  # noqa: E402
NOTES = {
    "C01": "Every disk operation of sampled openings is hit once by every applicable fault (sweep), and random fault sequences over several process lives follow; later opens are compared with the filing of a fault-free machine. Trusts the disk model (page cache, ordered metadata, fsync) of sim/seams.py.",
    "C02": "Every request of sampled openings meets every network fault (sweep) and random sequences; an open may only raise or return exactly the fault-free filing, and later opens must too. Trusts the HTTP server model below requests' adapters.",
    "C03": "Openings under sticky faults, stalled servers and self-referring documents must end within simulated-time and step bounds, and the first open after the faults stop must be complete. Servers that dribble an endless body are out of scope.",
    "C04": "Openings, then reopenings with the network down or its content changed, in the same and later processes; filings compared in full, requests counted.",
    "C05": "2-5 concurrent opens (threads and processes) over one shared cache, every interleaving chosen by the seed at disk, lock, network and call granularity, with kills and request faults in some; results compared with the opens run alone.",
    "C06": "Histories of opens and edits, copies, swaps and deletions of local files with clocks that stand still or jump; each open is compared with that of a machine that never opened anything.",
    "C07": "Families of look-alike remote URIs, each serving its own content, opened in seeded orders over several lives; contents compared with what was served for exactly that URI.",
    "C08": "The same bytes opened under different hash seeds (three interpreters), object addresses, folder orders, working directories, environments and cache states: ordered snapshots and exported tables must be equal.",
    "C09": "Generated taxonomy sets with known content (truth model built by the generator), with cycles, relative paths, catalogs and seeded folder orders and latencies: everything present exactly once, every file read once and requested at most once.",
    "C10": "Opens over mixtures of hosts, redirects, failures and cached files; gap and User-Agent of every request to www.sec.gov checked on the simulated clock.",
    "C11": "open_edgar under a simulated clock (waits around one day, restarts, time zones, changing servers) against a reference model of downloads and ages.",
    "C12": "open_edgar over generated company listings against a reference selection model; invalid arguments must cause no request.",
    "C13": "open_edgar with every disk and network operation of the metadata refresh failing once (sweep), crashes, power loss and concurrent callers, against the reference model.",
    "C14": "Histories that open, query, configure and discard several filings, in one or more threads with seeded interleavings; every answer compared with a process that has only that filing.",
    "C15": "Histories of queries and exports with seeded options, repeated, reordered and from several threads under seeded interleaving; every answer compared with that of a freshly opened filing.",
    "C16": "Opens of ordinary and hostile documents, under faults; the whole simulated disk is compared before and after, writes outside it are refused and reported.",
    "C17": "Every operation of sampled openings fails once (sweep) and random faults; open files and unread responses counted when each open returns or raises.",
    "C22": "Histories of settings (call, filing, library, system locale), opens and exports in 1-3 threads under seeded interleaving; every table, language list and setting compared with a reference model that reads only the facts, labels and terms. Trusts the accessors of a filing opened alone and the library's table of terms.",
}
NA = {
    "C18": "a pure function of the reported values and weights: no schedule, clock, fault, I/O or second party can influence it, so simulation would only be input generation under another name",
    "C19": "a pure function of the displayed text and the transformation's name; nothing nondeterministic or faulty takes part in it",
    "C20": "equality of immutable values: a pure function without schedule, time, I/O or faults",
    "C21": "which error is reported for which malformed construct depends on the document alone: no schedule, clock, fault or crash takes part, so there is nothing to simulate",
}
checks = [{
    "property": p,
    "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % p,
    "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p,
    "evidence_file": "evidence/%s.json" % p,
    "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and histories)",
    "level": plans.PLANS[p].level,
    "level_note": n,
} for p, n in sorted(NOTES.items())]
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --help", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
           "notes": "No hooks in /repo: every seam is a patched standard-library function (sim/seams.py, sim/net.py). Known and fixed defects: known-findings.txt. Design: DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

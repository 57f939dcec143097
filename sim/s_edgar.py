"""Scenarios about EDGAR and the SEC's servers (C10-C13, EDGAR part of C03, C16, C17)."""
import importlib.util
import json
import os
import random
import time

import machine
import net
import seams
import snap
import world as W
from machine import Outcomes, open_all, reference, universe

DAY = 86400.0
SLACK = 60.0
GENERIC = ("python-requests", "python-urllib", "curl", "wget", "mozilla", "java/", "go-http")


def load():
    """brel.utils.edgar as a new process sees it: its module code runs again, inside the simulation"""
    spec = importlib.util.find_spec("brel.utils.edgar")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


SCHEMA = ('<?xml version="1.0"?><xs:schema targetNamespace="urn:edgar" xmlns:xs="http://www.w3.org/2001/XMLSchema" '
          'xmlns:xbrli="http://www.xbrl.org/2003/instance"><xs:element id="e_Mark" name="Mark" type="xbrli:stringItemType" '
          'substitutionGroup="xbrli:item" xbrli:periodType="instant"/></xs:schema>').encode()
SCHEMA_URI = "https://xbrl.example.org/edgar/mark.xsd"


def filed(date, n):
    """a report is filed some weeks after the date that it reports on"""
    return "%d-%02d-%02d" % (int(date[:4]) + (int(date[5:7]) + 2 > 12), (int(date[5:7]) + 1) % 12 + 1, 1 + n % 28) if date else "2024-01-02"


def instance(mark):
    return ('<?xml version="1.0"?><xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" '
            'xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:e="urn:edgar"><link:schemaRef xlink:type="simple" xlink:href="%s"/>'
            '<xbrli:context id="c"><xbrli:entity><xbrli:identifier scheme="urn:s">1</xbrli:identifier></xbrli:entity><xbrli:period>'
            '<xbrli:instant>2023-12-31</xbrli:instant></xbrli:period></xbrli:context><e:Mark contextRef="c">%s</e:Mark></xbrli:xbrl>'
            ) % (SCHEMA_URI, mark)


class Edgar:
    """the companies, and what the server says about them from time to time"""

    def __init__(self, spec):
        self.r = random.Random("edgar %s" % spec["seed"])
        self.spec = spec
        self.versions = {}      # cik -> list of rows lists; row = dict
        self.current = {}
        self.marks = {}         # mark -> (cik, row)
        self.served = []        # (time, cik, version): filled by the server
        r = self.r
        pool = ["320193", "0000789019", "1018724", "1", "12", "0012345678", "1234567890", "78901", "32019", "3201930", "1000320193", "90320193", "5000789019", "20193"]
        self.ciks = r.sample(pool[:2] + pool[-4:], 2) if r.random() < 0.5 else pool[:2]
        self.ciks += r.sample([x for x in pool if x not in self.ciks], max(0, spec["companies"] - 2))
        if spec["companies"] == 1:
            self.ciks = [r.choice(pool)]
        for c in self.ciks:
            self.versions[c] = []
            self.new_version(c)

    def new_version(self, cik):
        r, spec = self.r, self.spec
        old = [dict(x) for x in self.versions[cik][-1]] if self.versions[cik] else []
        n = len(self.versions[cik])
        rows = old
        forms = ["10-K", "10-Q", "8-K", "10-K/A", "10-Q/A", "4", "10-KT", "DEF 14A", "SC 13G", "8-K/A", "S-8"]
        for j in range(r.randint(2, 6) if not n else r.randint(1, 3)):
            year = 2019 + (n if spec.get("growing") else r.randrange(5))
            form = r.choice(forms[:3]) if r.random() < 0.55 else r.choice(forms)
            serial = len(self.marks)
            acc = "%s-%02d-%06d" % (cik.zfill(10), year % 100, serial)
            doc = r.choice(("rep%d.htm", "rep%d.htm", "rep%d.htm", "rep%d_htm.xml", "rep%d.xml", "rep.htm%d.htm")) % serial
            date = "%d-%02d-%02d" % (year + (1 if n and spec.get("growing") else 0), r.choice((3, 6, 9, 12)), r.choice((28, 30)))
            if rows and r.random() < 0.2:
                date = r.choice(rows)["reportDate"] or date
            xbrl = 1 if r.random() < 0.75 else 0
            if form in ("4", "SC 13G", "S-8"):
                xbrl, date = 0, ("" if r.random() < 0.5 else date)
            elif r.random() < 0.06:
                date = ""
            row = {"accessionNumber": acc, "filingDate": filed(date, serial), "reportDate": date, "form": form,
                   "isXBRL": xbrl if r.random() < 0.8 else str(xbrl), "isInlineXBRL": xbrl, "primaryDocument": doc, "mark": "mark %s %d" % (cik.zfill(10), serial)}
            rows.append(row)
            self.marks[row["mark"]] = (cik, row)
        if spec.get("growing") and n:
            # every version has a newest filing of each type that no other version has as its newest
            for form in ("10-K", "10-Q", "8-K"):
                serial = len(self.marks)
                row = {"accessionNumber": "%s-%02d-%06d" % (cik.zfill(10), 30, serial), "filingDate": "%d-01-01" % (2025 + n),
                       "reportDate": "%d-12-31" % (2024 + n), "form": form, "isXBRL": 1, "isInlineXBRL": 1,
                       "primaryDocument": "new%d.htm" % serial, "mark": "mark %s %d" % (cik.zfill(10), serial)}
                rows.append(row)
                self.marks[row["mark"]] = (cik, row)
        how = r.random()
        if how < 0.4:
            rows.sort(key=lambda x: x["filingDate"], reverse=True)
        elif how < 0.8:
            r.shuffle(rows)
        self.versions[cik].append(rows)
        self.current[cik] = n

    def json(self, cik, n):
        rows = self.versions[cik][n]
        cols = ["accessionNumber", "filingDate", "reportDate", "form", "isXBRL", "isInlineXBRL", "primaryDocument"]
        return json.dumps({"cik": cik.zfill(10), "name": "Company %s \u00e9" % cik, "tickers": [], "version": n,
                           "filings": {"recent": {c: [x[c] for x in rows] for c in cols}, "files": []}}).encode()

    def install(self, m):
        m.serve(SCHEMA_URI, SCHEMA)
        for c in self.ciks:
            body = self.json(c, self.current[c])
            m.serve("https://data.sec.gov/submissions/CIK%s.json" % c.zfill(10), body)
            for row in self.versions[c][self.current[c]]:
                acc = row["accessionNumber"].replace("-", "")
                for who in sorted({c.zfill(10), c.lstrip("0"), c}):
                    base = "https://www.sec.gov/Archives/edgar/data/%s/%s/" % (who, acc)
                    doc = row["primaryDocument"]
                    if row["isXBRL"] in (1, "1"):
                        m.serve(base + (doc[:-4] + "_htm.xml" if doc.endswith(".htm") else doc), instance(row["mark"]).encode())
                    elif not doc.endswith(".htm"):
                        m.serve(base + doc, instance(row["mark"]).encode())
                    if doc.endswith(".htm"):
                        m.serve(base + doc, b"<html><body>report</body></html>", headers={"Content-Type": "text/html"})

    def matches(self, cik, n, form, date):
        """the newest matching rows of version n"""
        c = next((x for x in self.ciks if x.zfill(10) == cik.zfill(10)), None)
        if c is None:
            return []
        rows = [x for x in self.versions[c][n] if x["form"] == form and str(x["isXBRL"]) == "1" and (date is None or x["reportDate"] == date)]
        if not rows:
            return []
        newest = max(x["reportDate"] for x in rows)
        return [x for x in rows if x["reportDate"] == newest]


def install_simple(m, spec):
    e = Edgar(spec)
    e.install(m)
    m.edgar = e
    out = []
    for c in e.ciks:
        for form in ("10-K", "10-Q"):
            if e.matches(c, e.current[c], form, None):
                out.append((c, form))
    return out


def mark_of(f):
    facts = f.get_all_facts()
    return [x.get_value_as_str() for x in facts]


BAD_ARGS = [("320193", "10-K", "2023-13-01"), ("320193", "10-K", "20231231"), ("320193", "10-K", "31-12-2023"), ("320193", "10-K", ""),
            ("320193", "10-K", 20231231), ("320193", "10-K", "2023-02-30"), ("320193", "10-K", "2023-12-31T00:00:00"), ("320193", "10-K", "2023-12-31 "),
            ("12345678901", "10-K"), (320193, "10-K"), (None, "10-K"), ("320193", "10-k"), ("320193", ""), ("320193", "10-K/A"), ("320193", None),
            ("320193", "20-F"), ("320193", "4"), ("", "10-K"), ("APPL", "10-K"), ("../../evil", "10-K"), ("320193\n", "10-K"), ("-320193", "10-K"), ("32 0193", "10-Q"),
            ("320193", "10-K ", None), (["320193"], "10-K"), ("320193", ["10-K"]), ("0x10", "8-K"), ("1/../2", "8-K")]


def spell(r, cik):
    """the ways to write the same company"""
    return r.choice((cik, cik, cik.zfill(10), cik.lstrip("0")))


def edgar(m, job):
    """lives = [[op, ...]]; op = ["call", company index, form, date spec], ["bad", i], ["wait", s], ["change", company index],
    ["outage", host, fault], ["up"], ["calm"]

    job["mode"]: "age" (C11), "select" (C12), "fault" (C13), "recover" (C03)
    """
    from s_files import Verdict
    v = Verdict()
    e = Edgar(job["edgar"])
    e.install(m)
    mode = job["mode"]
    history = []    # (time, cik10, version) of every genuine metadata delivery
    tz = m.cfg.get("tz")

    def candidates(cik, t0, t1):
        return {n for (t, c, n) in history if c == cik.zfill(10) and t0 - DAY - SLACK <= t <= t1}

    def note_served(req0):
        for q in m.w.requests[req0:]:
            if "/submissions/CIK" in q["uri"] and q["outcome"] == "ok":
                c = q["uri"].rsplit("CIK", 1)[1][:10]
                q["version"] = q.get("version")
    for n, life in enumerate(job["lives"]):
        actors = life["actors"] if isinstance(life, dict) else [["P%d" % n, life]]
        outcomes, bodies, versions = {}, [], {}
        versions_now = {"list": []}
        rr = random.Random("edgar life %s %d" % (m.w.seed, n))
        for k, (process, ops) in enumerate(actors):
            name = "L%d%s%d" % (n, process, k)
            o = outcomes[name] = Outcomes()
            calls = []
            for op in ops:
                if op[0] == "call":
                    cik = e.ciks[op[1] % len(e.ciks)]
                    calls.append(("call", cik, spell(rr, cik), op[2], op[3]))
                else:
                    calls.append(tuple(op))

            def body(o=o, calls=calls, name=name):
                w = seams.WORLD
                if tz:
                    os.environ["TZ"] = tz
                    time.tzset()
                mod = None
                rng = random.Random(name)
                for op in calls:
                    if op[0] == "wait":
                        W.current_actor().started_at = None     # its own choice, not a stuck call
                        w.wait_until(w.clock + op[1])
                        W.current_actor().started_at = w.clock
                    elif op[0] == "change":
                        c = e.ciks[op[1] % len(e.ciks)]
                        e.new_version(c)
                        e.install(Installer(w))
                        versions_now["list"].append((w.clock, c.zfill(10), e.current[c]))
                    elif op[0] == "outage":
                        if w.faults_on:
                            w.down_hosts[op[1]] = list(op[2])
                            w.count("fault.net.outage")
                    elif op[0] == "up":
                        w.down_hosts = {}
                    elif op[0] == "calm":
                        w.faults_on = False
                        w.disk_full = w.disk_dead = False
                        w.down_hosts = {}
                    else:
                        if op[0] == "bad":
                            args = BAD_ARGS[op[1] % len(BAD_ARGS)]
                        else:
                            _, cik, spelled, form, date = op
                            if date == "pick":
                                rows = e.versions[cik][e.current[cik]]
                                # (a filing is selected by the date it reports on, not by the date it was filed)
                                what = "reportDate" if rng.random() < 0.75 else "filingDate"
                                date = rng.choice([x[what] for x in rows if x[what]] or ["2022-12-31"])
                            args = (spelled, form) if date is None else (spelled, form, date)
                        try:
                            if mod is None:
                                mod = load()
                        except (W.SimCrash, W.SimHang, W.SimStuck):
                            raise
                        except Exception as x:
                            o.items.append([args, "raise", "import: " + W.describe(x), {"t0": w.clock, "t1": w.clock, "req0": len(w.requests), "import": True, "mro": [],
                                                                                              "faults": w.faults_on, "broken": bool(w.down_hosts or w.disk_full or w.disk_dead)}])
                            continue
                        o.open(args, lambda a: mod.open_edgar(*a))
                        o.items[-1][3]["reqs"] = len(w.requests)
                        o.items[-1][3]["current"] = dict(e.current)
                        o.items[-1][3]["faults"] = w.faults_on
                        o.items[-1][3]["broken"] = bool(w.down_hosts or w.disk_full or w.disk_dead)  # still, from an earlier fault
            bodies.append((name, "L%d%s" % (n, process), body))

        res, extra = m.life(bodies, after=lambda _: ({k: o.finish(mark_of) for k, o in outcomes.items()}, e.versions, e.current, e.marks, e.r.getstate()))
        if extra is None:
            v.bad("died", "a process ended: %s" % (res,))
            break
        outs, e.versions, e.current, e.marks, st = extra
        e.r.setstate(st)
        # which version the server delivered, and when
        for q in m.w.requests:
            if "/submissions/CIK" in q["uri"] and q["outcome"] == "ok" and not q.get("seen"):
                q["seen"] = True
                c10 = q["uri"].rsplit("CIK", 1)[1][:10]
                history.append((q["t"], c10, q["served"]))
        script = m.w.plan.script
        hit = {k.split(":")[0] for k in script if ":fs" in k or ":net" in k}
        crashed = False
        for name, process, _ in bodies:
            st = res[name]
            if st[0] in ("hang", "stuck", "died"):
                v.bad("hang", "open_edgar: %s %s" % st)
                continue
            if st[0] == "crash":
                crashed = True
                v.probe("process crashed")
            for what, s, value, d in outs.get(name, []):
                if s == "died":
                    continue
                m.note("t=%.0f %s: open_edgar%s: %s" % (d["t0"] - W.T0, name, tuple(what), value))
                faulty = (name in hit or d.get("broken")) and d.get("faults", True)
                judge(v, m, e, what, s, value, d, history, faulty, mode, name, candidates)
        if isinstance(life, dict) and life.get("power") is not None:
            m.power_cut(life["power"])
    if mode in ("fault", "recover") and not v.items:
        m.calm()
        calls = [(c, f) for c in e.ciks for f in ("10-K", "10-Q")]
        o = Outcomes()

        def last():
            mod = load()
            for a in calls:
                o.open(a, lambda x: mod.open_edgar(*x))
        res, extra = m.life([("Z", "Z", last)], after=lambda _: o.finish(mark_of))
        for q in m.w.requests:
            if "/submissions/CIK" in q["uri"] and q["outcome"] == "ok" and not q.get("seen"):
                q["seen"] = True
                history.append((q["t"], q["uri"].rsplit("CIK", 1)[1][:10], q["served"]))
        if res["Z"][0] != "ok":
            v.bad("stuck", "after the faults had stopped, open_edgar: %s %s" % res["Z"])
        for what, s, value, d in extra or []:
            m.note("t=%.0f Z: open_edgar%s: %s" % (d["t0"] - W.T0, tuple(what), value))
            judge(v, m, e, what, s, value, d, history, False, mode, "Z", candidates, final=True)
    return v.out()


class Installer:
    def __init__(self, w):
        self.w = w

    def serve(self, uri, body, **k):
        self.w.servers[net.key(uri)] = net.Resource(body, **k)


def judge(v, m, e, args, s, value, d, history, faulty, mode, name, candidates, final=False):
    reqs = m.w.requests[d["req0"]:d.get("reqs", len(m.w.requests))]
    mine = [q for q in reqs if q["actor"] == name]
    bad = tuple(args) in BAD_ARGS
    stage = "after the faults had stopped, " if final else ""
    if bad:
        v.probe("invalid arguments")
        if mine:
            v.bad("invalid", "open_edgar%s has an invalid argument but requested %s" % (tuple(args), mine[0]["uri"]))
        if s == "ok":
            v.bad("invalid", "open_edgar%s has an invalid argument but returned a filing" % (tuple(args),))
        elif "ValueError" not in d.get("mro", []):
            v.bad("invalid", "open_edgar%s has an invalid argument but raised %s, not ValueError" % (tuple(args), value))
        return
    cik, form = args[0], args[1]
    date = args[2] if len(args) > 2 else None
    c10 = cik.zfill(10)
    cands = candidates(cik, d["t0"], d["t1"])
    # C11: not downloaded again within a day (unless it could not be stored or read)
    if mode == "age" and not any(k.startswith("fault.") for k in m.w.stats):
        for q in mine:
            if "/submissions/" in q["uri"]:
                recent = [t for t, c, _ in history if c == c10 and q["t"] - DAY + SLACK < t < d["t0"]]
                if recent:
                    v.bad("refetch", "metadata of %s was downloaded %.0f s ago, and again now" % (cik, q["t"] - max(recent)))
        old = [t for t, c, _ in history if c == c10 and t < d["t0"]]
        if old:
            v.probe("call with metadata older than a day" if d["t0"] - max(old) > DAY else "call with metadata of the last day")
    if s == "ok":
        if len(value) != 1 or value[0] not in e.marks:
            v.bad("select", "%sopen_edgar%s returned a filing with the facts %s" % (stage, tuple(args), value))
            return
        owner, row = e.marks[value[0]]
        if owner.zfill(10) != c10:
            v.bad("foreign", "%sopen_edgar%s returned a filing of company %s" % (stage, tuple(args), owner))
            return
        good = any(row["mark"] == x["mark"] for n in cands for x in e.matches(cik, n, form, date))
        if good:
            v.probe("right filing")
            return
        older = sorted({n for t, c, n in history if c == c10} - cands)
        stale = any(row["mark"] == x["mark"] for n in older for x in e.matches(cik, n, form, date))
        cur = sorted(cands)
        if stale:
            ages = [d["t1"] - t for t, c, n in history if c == c10 and any(row["mark"] == x["mark"] for x in e.matches(cik, n, form, date))]
            v.bad("stale", "%sopen_edgar%s chose %s %s from metadata downloaded %.0f s before" % (stage, tuple(args), row["form"], row["reportDate"], min(ages)))
        else:
            want = [[x["reportDate"] for x in e.matches(cik, n, form, date)] for n in cur]
            v.bad("select", "%sopen_edgar%s returned the %s of %s (XBRL: %s), but the newest match is of %s" % (
                stage, tuple(args), row["form"], row["reportDate"], row["isXBRL"], want))
        return
    # it raised
    if faulty:
        v.probe("raised under a fault")
        return
    if d.get("import"):
        v.bad("raise", "%simporting brel raised %s" % (stage, value))
        return
    none = any(not e.matches(cik, n, form, date) for n in cands)
    if none:
        v.probe("nothing matches")
        if "ValueError" not in d["mro"]:
            v.bad("raise", "%sopen_edgar%s: nothing matches, but it raised %s, not ValueError" % (stage, tuple(args), value))
        return
    v.bad("raise", "%sopen_edgar%s raised %s, although a matching filing is listed" % (stage, tuple(args), value))


# ------------------------------------------------------------------ C10: SEC rules

def fair(m, job):
    from s_files import Verdict
    v = Verdict()
    rows = []
    for spec in job["universes"]:
        u = universe(spec)
        m.install(u)
        rows += u.entries
    if job.get("edgar"):
        rows += install_simple(m, job["edgar"])
    r = random.Random("fair %s" % job["seed"])
    if job.get("redirects"):
        # http moved to https, or files moved from one server to the other
        for uri, res in list(m.w.servers.items()):
            if r.random() < 0.35 and res.redirect is None:
                to = r.choice((uri.replace("http://", "https://", 1) if uri.startswith("http://") else uri.replace("://", "://moved.", 1),
                               "https://www.sec.gov/moved/%d/%s" % (r.randrange(10 ** 6), uri.rsplit("/", 1)[1])))
                if net.key(to) in m.w.servers or net.key(to) == uri:
                    continue
                m.w.servers[net.key(to)] = res
                m.w.servers[uri] = net.Resource(b"", redirect=to)
    for n, life in enumerate(job["lives"]):
        paths = [rows[i % len(rows)] for i in life["open"]]
        o = Outcomes()
        name = "P%d" % n

        def body():
            mod = None
            for p in paths:
                if isinstance(p, tuple):
                    mod = mod or load()
                    o.open(p, lambda q: mod.open_edgar(*q))
                else:
                    o.open(p)
                o.items[-1][3]["req2"] = len(seams.WORLD.requests)
                o.items[-1][2] = None if o.items[-1][1] == "ok" else o.items[-1][2]
        res, outs = m.life([(name, name, body)], after=lambda _: o.items)
        for what, st, value, d in outs or []:
            m.note("%s: open %s: %s" % (name, what, st if st == "ok" else value))
            reqs = m.w.requests[d["req0"]:d.get("req2", len(m.w.requests))]
            sec = [q for q in reqs if q["uri"].split("://", 1)[1].split("/")[0].split("@")[-1].split(":")[0].lower() == "www.sec.gov"]
            v.probe("requests to the SEC", len(sec))
            for a, b in zip(sec, sec[1:]):
                v.probe("pairs judged")
                if b["t"] - a["t"] < 0.1 - 1e-5:
                    v.bad("pace", "opening %s sent two requests to www.sec.gov %.4f s apart: %s (%s), then %s" % (
                        what, b["t"] - a["t"], a["uri"], a["outcome"], b["uri"]))
            for q in sec:
                h = {k.lower(): x for k, x in q["headers"].items()}
                ua = h.get("user-agent") or ""
                if isinstance(ua, bytes):
                    ua = ua.decode("latin-1")
                if not ua.strip() or (ua.lower().startswith(GENERIC) and "@" not in ua):
                    v.bad("agent", "opening %s requested %s with the User-Agent %r" % (what, q["uri"], ua))
        if job.get("clear") == n:
            # the cache is emptied, so that the next open has to download everything again
            import machine as mc
            p = m.w.real("/sim/home/.brel")
            if os.path.isdir(p):
                mc.rmtree(p)
                seams.real["rmdir"](p)
            m.note("the cache is emptied")
    return v.out()


SCENARIOS = {"edgar": edgar, "fair": fair}

"""Scenarios about files: the cache, the network, local files (C01-C07, C09, C16, C17)."""
import io
import os
import posixpath
import random
import zipfile

import gen
import machine
import net
import seams
import snap
import truth
import world as W
from machine import Outcomes, open_all, reference, universe

CACHES = ("/sim/home/.brel", "/sim/home/.brel_edgar_cache")


class Verdict:
    def __init__(self):
        self.items = []
        self.probes = {}

    def bad(self, cls, text):
        if len(self.items) < 6 and (cls, text) not in self.items:
            self.items.append((cls, text))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def out(self, **k):
        return {"violations": self.items, "probes": self.probes, **k}


def setup(m, job, v):
    """installs the universes of the job. Returns ([(universe, entry, reference)], ok)"""
    rows = []
    for spec in job["universes"]:
        u = universe(spec)
        refs = reference(spec)
        m.install(u)
        for e in u.entries:
            r = refs[e]
            if r.status != "ok":
                v.bad("reference", "a valid filing cannot be opened on a fresh machine without faults: %s: %s %s" % (e, r.status, r.value))
            rows.append((u, e, r))
    if job.get("redirects"):
        redirect(m, random.Random("redirects %s" % job["redirects"]))
    if job.get("twins") is not None:
        twins(m, random.Random("twins %s" % job["twins"]))
    return rows, not v.items


def redirect(m, r):
    """some files have moved, on their server or to another one: their old places lead to the new ones"""
    share = r.choice((0.15, 0.35, 1.0))
    for uri, res in sorted(m.w.servers.items()):
        if res.redirect is not None or r.random() > share:
            continue
        here, host = uri.split("://", 1)[0] + "://", uri.split("://", 1)[1].split("/", 1)[0]
        path, name = uri[len(here) + len(host):].rsplit("/", 1)
        hops = [uri]
        for _ in range(r.choice((1, 1, 1, 2))):
            hops.append(r.choice(("https://moved.%s%s/%s" % (host, path, name),
                                  here + host + path + "/v%d/" % r.randrange(99) + name,
                                  "%s%s%s/%d%s" % (here, host, path, r.randrange(10 ** 6), "" if r.random() < 0.5 else ".bin"),
                                  "http://cdn.example.net/%d?file=%s" % (r.randrange(10 ** 6), name))))
        if len({net.key(x) for x in hops} | set(m.w.servers)) < len(hops) + len(m.w.servers) - 1:
            continue
        for a, b in zip(hops, hops[1:]):
            m.w.servers[net.key(a)] = net.Resource(b"", redirect=b, status=r.choice((301, 302, 303, 307, 308)))
        m.w.servers[net.key(hops[-1])] = res
        m.note("%s has moved to %s" % (uri, hops[-1]))


def shorter(body):
    """a well-formed document of the same kind that says less"""
    import lxml.etree
    try:
        root = lxml.etree.fromstring(body)
    except (lxml.etree.XMLSyntaxError, ValueError):
        return b"<other/>"
    inner = [x for x in root.iter() if len(x)]
    if inner:
        x = inner[len(inner) // 2]
        x.remove(x[-1])
    return lxml.etree.tostring(root, xml_declaration=True, encoding="UTF-8")


_shorter = {}


def twins(m, r):
    """other documents at URIs that look like those of the filing: a client that asks for the wrong one gets it"""
    for uri, res in sorted(m.w.servers.items()):
        if res.redirect is not None or res.status != 200:
            continue
        scheme, rest = uri.split("://", 1)
        host, path = rest.split("/", 1) if "/" in rest else (rest, "")
        like = ["%s://%s" % ("http" if scheme == "https" else "https", rest), "%s://%s/%s" % (scheme, host[4:] if host.startswith("www.") else "www." + host, path),
                uri.split("?")[0], uri.lower(), "%s://%s/%s" % (scheme, host, path.rsplit("/", 1)[-1])]
        for x in like:
            if r.random() < 0.8 and net.key(x) not in m.w.servers:
                h = hash(res.body)
                if h not in _shorter:
                    if len(_shorter) > 2000:
                        _shorter.clear()
                    _shorter[h] = shorter(res.body)
                m.w.servers[net.key(x)] = net.Resource(_shorter[h])


def ended(v, status, what):
    """a process that neither ended nor was crashed by the simulator"""
    if status[0] in ("hang", "stuck"):
        v.bad("hang", "%s: %s" % (what, status[1]))
        return False
    if status[0] == "died":
        v.bad("died", "%s: %s" % (what, status[1]))
        return False
    return status[0] != "crash"


def right(v, outs, refs, cls="wrong"):
    """every filing that was returned is the right one"""
    for what, st, value, d in outs:
        if st == "ok":
            diff = snap.diff(refs[what].value, value, "filing")
            if diff:
                v.bad(cls, "open %s returned a filing that differs from the one of a fault-free open: %s" % (what, diff))


def must(v, status, outs, paths, refs, cls, why):
    """all of paths were opened, correctly"""
    if status[0] != "ok":
        v.bad(cls, "%s: the process ended: %s %s" % (why, status[0], status[1]))
    for what, st, value, d in outs:
        if st != "ok":
            v.bad(cls, "%s: open %s raised %s" % (why, what, value))
            continue
        diff = snap.diff(refs[what].value, value, "filing")
        if diff:
            v.bad("wrong", "%s: open %s returned a wrong filing: %s" % (why, what, diff))


def fired(m):
    return sum(n for k, n in m.w.stats.items() if k.startswith("fault."))


def stored_ok(m):
    """remote files whose whole content was delivered at least once"""
    got = {r["uri"] for r in m.w.requests if r["outcome"] == "ok"}
    for uri in m.w.servers:
        at = uri
        while at in m.w.servers and m.w.servers[at].redirect:
            at = net.key(m.w.servers[at].redirect)
        if at in got:
            got.add(uri)
    return got


# ------------------------------------------------------------------ C01, C02, C03: faults, then calm

def faults(m, job):
    """lives = [{"open": [entry indexes], "power": seed or None, "relief": bool}]; then calm.

    job["mode"]: "crash" (C01), "download" (C02), "recover" (C03)
    """
    v = Verdict()
    rows, ok = setup(m, job, v)
    if not ok:
        return v.out()
    refs = {e: r for _, e, r in rows}
    entries = [e for _, e, _ in rows]
    truths = {e: u.truth[e] for u, e, _ in rows}
    mode = job["mode"]
    for n, life in enumerate(job["lives"]):
        paths = [entries[i % len(entries)] for i in life["open"]]
        req0 = len(m.w.requests)
        calm_at = life.get("calm_at")

        def between(i):
            if calm_at is not None and i == calm_at:
                m.w.faults_on = False
                m.w.disk_full = m.w.disk_dead = False
                m.w.down_hosts = {}
        status, outs = open_all(m, paths, between=between)
        ended(v, status, "opening %s" % paths)
        right(v, outs, refs)
        if calm_at is not None and status[0] == "ok":
            for what, st, value, d in outs[calm_at:]:
                v.probe("reopened in the same process")
                if st != "ok":
                    v.bad("stuck", "the faults had stopped, but the next open of %s in the same process raised %s" % (what, value))
        if mode == "download":
            served = stored_ok(m)
            for what, st, value, d in outs:
                if st == "ok":
                    missing = [f for f in sorted(truths[what].files) if f.startswith("http") and net.key(f) not in served]
                    if missing:
                        v.bad("accepted", "open %s returned a filing although %s was never delivered" % (what, missing[0]))
        if any(st == "ok" for _, st, _, _ in outs) and fired(m):
            v.probe("open succeeded in spite of faults")
        if any(st == "raise" for _, st, _, _ in outs):
            v.probe("open raised")
        if status[0] == "crash":
            v.probe("process crashed")
        if life.get("power") is not None:
            m.power_cut(life["power"])
        if life.get("relief"):
            m.w.disk_full = False
            m.w.down_hosts = {}
        if calm_at is not None:
            m.w.faults_on = True
    m.calm()
    order = list(entries)
    random.Random(m.w.seed).shuffle(order)
    why = "after the faults had stopped"
    status, outs = open_all(m, order)
    must(v, status, outs, order, refs, "poisoned" if mode == "crash" else "stuck", why)
    if mode == "crash" and not v.items and job.get("again"):
        # everything was opened correctly; losing power now and opening again must also work
        m.power_cut(job["again"])
        status, outs = open_all(m, order)
        must(v, status, outs, order, refs, "poisoned", "after a power loss that followed correct opens")
    return v.out()


# ------------------------------------------------------------------ C04: reopening offline

def reopen(m, job):
    """steps: ["open", i], ["fill", seed, files], ["restart"], ["wait", seconds], ["offline"], ["online"], ["change", how]"""
    v = Verdict()
    rows, ok = setup(m, job, v)
    if not ok:
        return v.out()
    refs = {e: r for _, e, r in rows}
    entries = [e for _, e, _ in rows]
    truths = {e: u.truth[e] for u, e, _ in rows}
    cached, tainted = set(), set()
    fillers = {}
    for x in job["steps"]:
        if x[0] == "fill":
            # another filing, of many files
            import near as near_mod
            fillers[x[1]] = near_mod.make({"seed": x[1], "n": x[2], "entries": 1, "wide": True})
            m.install(fillers[x[1]])
    originals = dict(m.w.servers)
    steps = list(job["steps"])
    state = {"offline": False, "changed": False}

    def apply(step):
        w = seams.WORLD
        if step[0] == "offline":
            w.servers = {}
            state["offline"] = True
        elif step[0] == "wait":
            w.clock += step[1]
        elif step[0] == "online":
            w.servers = dict(originals)
            if state["changed"]:
                alter(w, originals, job)
            state["offline"] = False
        elif step[0] == "change":
            state["changed"] = True
            if not state["offline"]:
                alter(w, originals, job)

    # group the steps into process lives
    lives, cur = [], []
    for s in steps:
        if s[0] == "restart":
            lives.append(cur)
            cur = []
        else:
            cur.append(s)
    lives.append(cur)
    for life in lives:
        o = Outcomes()
        may = []    # for every open: may it legitimately fail?

        def body():
            for s in life:
                if s[0] == "open":
                    e = entries[s[1] % len(entries)]
                    o.open(e)
                    o.items[-1][3]["offline"] = state["offline"]
                    o.items[-1][3]["changed"] = state["changed"]
                elif s[0] == "fill":
                    import brel
                    try:
                        brel.Filing.open(fillers[s[1]].entries[0])
                    except Exception as e:
                        if not state["offline"] and not state["changed"]:
                            raise
                else:
                    apply(s)
        res, outs = m.life([("P%d" % m.lives, "P", body)], after=lambda r: (o.finish(), dict(state)))
        (status,) = res.values()
        if status[0] != "ok":
            v.bad("died", "the process ended: %s %s" % status)
            break
        outs, state = outs
        for what, st, value, d in outs:
            m.note("open %s%s: %s" % (what, " offline" if d["offline"] else " with changed servers" if d["changed"] else "", st if st == "ok" else "raised %s" % value))
            need = {net.key(f) for f in truths[what].files if f.startswith("http")}
            asked = [r["uri"] for r in m.w.requests[d["req0"]:d.get("req1", len(m.w.requests))]]
            if d["changed"]:
                tainted |= set(asked) - cached      # first fetched from a changed server: nothing is known about them
            again = [x for x in asked if x in cached]
            if again:
                v.bad("requested", "opening %s requested %s, which an earlier open had cached" % (what, again[0]))
            if not need & tainted and (need <= cached or not (d["offline"] or d["changed"])):
                if need <= cached:
                    v.probe("reopened with everything cached")
                if st != "ok":
                    v.bad("lost", "all remote files of %s were cached or available, but opening it raised %s" % (what, value))
                    continue
                diff = snap.diff(refs[what].value, value, "filing")
                if diff:
                    v.bad("changed", "all remote files of %s were cached or available, but opening it gave another filing: %s" % (what, diff))
            if st == "ok":
                cached |= need
    return v.out()


def alter(w, originals, job):
    """the servers answer something else from now on"""
    how = job.get("alter", "garbage")
    for uri, res in originals.items():
        if res.redirect:
            if how == "gone":
                w.servers.pop(uri, None)
            continue
        if how == "garbage":
            body = b"<html>moved</html>"
        elif how == "gone":
            w.servers.pop(uri, None)
            continue
        else:
            body = res.body.replace(b"decimals=", b"precision=").replace(b">", b">\n", 1).replace(b"label", b"lebal")
            for a, b in ((b"Assets", b"Aktiva"), (b"Cash", b"Geld"), (b"Costs", b"Kosten"), (b"Tax", b"Xat"), (b"Debt", b"Debit"),
                         (b"2023", b"2024"), (b"1", b"7")):
                body = body.replace(a, b)
        w.servers[uri] = net.Resource(body)


# ------------------------------------------------------------------ C05: concurrent opens

def concurrent(m, job):
    """lives: [{"actors": [[process, [entry indexes]], ...], "calm": bool}]"""
    v = Verdict()
    rows, ok = setup(m, job, v)
    if not ok:
        return v.out()
    refs = {e: r for _, e, r in rows}
    entries = [e for _, e, _ in rows]
    good = set()
    if job.get("warm"):
        m.w.faults_on = False
        status, outs = open_all(m, [entries[i % len(entries)] for i in job["warm"]])
        must(v, status, outs, None, refs, "alone", "before anything ran concurrently")
        m.w.faults_on = True
    for n, life in enumerate(job["lives"]):
        outcomes, bodies = {}, []
        for k, (process, opens) in enumerate(life["actors"]):
            name = "L%d%s%d" % (n, process, k)
            o = outcomes[name] = Outcomes()

            def body(o=o, opens=opens):
                for i in opens:
                    o.open(entries[i % len(entries)])
            bodies.append((name, "L%d%s" % (n, process), body))
        res, outs = m.life(bodies, after=lambda r: {k: o.finish() for k, o in outcomes.items()})
        outs = outs or {}
        hit = {k.split(":")[0] for k in m.w.plan.script if ":fs" in k or ":net" in k}
        hit_processes = {p for name, p, _ in bodies if name in hit}
        for name, process, _ in bodies:
            st = res[name]
            m.note("%s: %s; %s" % (name, st[0] if st[0] == "ok" else st, [(w_, s if s == "ok" else val) for w_, s, val, _ in outs.get(name, [])]))
            if st[0] == "crash":
                v.probe("process killed beside others")
                continue
            if st[0] != "ok":
                v.bad("hang", "concurrent open: %s %s" % st)
                continue
            for what, s, value, d in outs.get(name, []):
                if s == "ok":
                    good.add(what)
                    want = refs[what].value
                    if name in hit or process in hit_processes:
                        # its own download may have failed where another one's copy then served it:
                        # the filing is right and also says what failed
                        want, value = without_failures(want), without_failures(value)
                    diff = snap.diff(want, value, "filing")
                    if diff:
                        v.bad("mixed", "open %s beside others returned a filing that differs from the one it returns alone: %s" % (what, diff))
                elif name not in hit and process not in hit_processes:
                    v.bad("disturbed", "open %s met no fault itself but raised %s beside others" % (what, value))
    m.calm()
    order = sorted(good)
    if order:
        saved = m.w.servers
        m.w.servers = {}
        status, outs = open_all(m, order)
        must(v, status, outs, order, refs, "cache", "from the cache that concurrent opens left, offline")
        m.w.servers = saved
    status, outs = open_all(m, entries)
    must(v, status, outs, entries, refs, "cache", "after concurrent opens")
    return v.out()


# ------------------------------------------------------------------ C06: local files

def fresh(docs, servers, path, cwd):
    """what a machine that never opened anything says about these bytes"""
    base = machine.BASE
    saved = seams.WORLD
    try:
        machine.set_base(os.path.join(base, "ref"))
        m = machine.Machine({"seed": 2, "cfg": {"cwd": cwd}}, quiet=True)
        for p, b in docs.items():
            m.put(p, b)
        m.w.servers = dict(servers)
        status, outs = open_all(m, [path])
        if status[0] != "ok" or not outs:
            return (status[0], None)
        return (outs[0][1], outs[0][2])
    finally:
        machine.set_base(base)
        seams.set_world(saved)


DIGITS = b"0123456789"


def edit(r, name, body):
    """another content of the same kind; sometimes of the same length"""
    if name.endswith(".zip"):
        # the archive is made again with another content of one file
        with zipfile.ZipFile(io.BytesIO(body)) as z:
            inside = [(i.filename, i.compress_type, z.read(i)) for i in z.infolist()]
        order = list(range(len(inside)))
        r.shuffle(order)
        for n in order:
            new = edit(r, inside[n][0], inside[n][2])
            if new is not None and new != inside[n][2]:
                out = io.BytesIO()
                with zipfile.ZipFile(out, "w") as z:
                    for j, (q, how, b) in enumerate(inside):
                        z.writestr(zipfile.ZipInfo(q), new if j == n else b, how)
                return out.getvalue()
        return None
    try:
        text = body.decode("utf-8")
    except UnicodeDecodeError:
        return None
    import re
    if name.endswith("META-INF/catalog.xml"):
        # the mapping leads somewhere else, or there again
        if "nowhere/" in text:
            return text.replace("nowhere/", "").encode("utf-8")
        found = list(re.finditer('rewritePrefix="', text))
        if found:
            at = r.choice(found).end()
            return (text[:at] + "nowhere/" + text[at:]).encode("utf-8")
    if "</xs:schema>" in text and 'xmlns:xbrli=' in text and r.random() < 0.2:
        # one more element, or the last one of these away
        new = '<xs:element id="grown_%d" name="Grown%d" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/>'
        old = re.search('<xs:element id="grown_[^>]*>', text)
        if old and r.random() < 0.5:
            return (text[:old.start()] + text[old.end():]).encode("utf-8")
        n = r.randrange(1000)
        return text.replace("</xs:schema>", new % (n, n) + "</xs:schema>").encode("utf-8")
    kinds = []
    for kind, pat in (("fact", r'decimals="0">(\d+)<'), ("fact", r">(text \d+)<"), ("label", r'xml:lang="[a-zA-Z-]+">([^<]+)<'),
                      ("definition", r"<link:definition>([^<]+)<"), ("order", r'order="(\d+)"')):
        for mt in re.finditer(pat, text):
            kinds.append((kind, mt))
    if not kinds:
        return None
    kind, mt = r.choice(kinds)
    old = mt.group(1)
    if old.isdigit():
        new = str((int(old[0]) % 9) + 1) + "".join(r.choice("0123456789") for _ in old[1:])
        if kind == "order":
            new = str(int(old) + 40)
        elif r.random() < 0.3:
            new += r.choice("0123456789")
    else:
        new = old[:-1] + r.choice([c for c in "QWXZ" if c != old[-1]])
        if r.random() < 0.3:
            new += " changed"
    return (text[: mt.start(1)] + new + text[mt.end(1):]).encode("utf-8")


def local(m, job):
    """a history of edits, copies, deletions, restarts and opens of local filings"""
    v = Verdict()
    rows, ok = setup(m, job, v)
    if not ok:
        return v.out()
    for u, e, ref in rows:
        if ref.truth_diff and not any(u.knobs.get(k) for k in ("bad",)):
            v.bad("local", "open %s on a fresh machine does not show what its files hold: %s" % (e, ref.truth_diff))
    r = random.Random("local %s" % m.w.seed)
    docs = {}
    for u, e, _ in rows:
        docs.update(u.docs)
    folders = sorted({"/".join(d.split("/")[:4]) for d in docs if d.count("/") > 3})
    targets = []            # (path to open, working directory)
    for u, e, _ in rows:
        if not e.startswith("http"):
            targets.append(e)
    # each life: edits happen while no process runs, or between two opens of one process
    for n, life in enumerate(job["lives"]):
        o = Outcomes()
        plan = []
        for op in life:
            plan.append(op)
        record = []

        def body():
            w = seams.WORLD
            for op in plan:
                if op[0] == "open":
                    e = targets[op[1] % len(targets)]
                    path, cwd = e, w.cwd
                    if op[2]:
                        # a relative spelling
                        w.cwd = os.path.dirname(e)
                        path = os.path.basename(e)
                    record.append((path, w.cwd, dict(docs)))
                    o.open(path)
                    w.cwd = cwd
                else:
                    mutate(m, w, r, op, docs, folders, targets)

        name = "P%d" % m.lives
        res, extra = m.life([(name, name, body)],
                            after=lambda _: (o.finish(), record, docs, targets, folders, r.getstate(), m.notes))
        status = res[name]
        if status[0] != "ok" or extra is None:
            v.bad("died", "the process ended: %s %s" % status)
            break
        outs, record, docs, targets, folders, state, m.notes = extra
        r.setstate(state)
        for (what, st, value, d), (path, cwd, then) in zip(outs, record):
            want = fresh(then, m.w.servers, path, cwd)
            m.note("%s: open %s: %s" % (name, what, st if st == "ok" else value))
            if (st == "ok") != (want[0] == "ok"):
                v.bad("local", "open %s %s, but on a machine that never opened anything %s" % (
                    what, "succeeded" if st == "ok" else "raised %s" % value,
                    "it succeeds" if want[0] == "ok" else "it raises %s" % (want[1],)))
                continue
            if st == "ok":
                v.probe("opened after %d changes" % min(5, sum(1 for x in m.notes if x.startswith("edit"))))
                diff = snap.diff(want[1], value, "filing")
                if diff:
                    v.bad("local", "open %s does not show what the files hold now: %s" % (what, diff))
    return v.out()


def make_folders(path):
    if not seams.real["path_isdir"](path):
        make_folders(os.path.dirname(path))
        seams.real["mkdir"](path)


def without_failures(d):
    return dict(d, errors=[e for e in d.get("errors", []) if not str(e[0]).startswith("E-MSC-100")]) if isinstance(d, dict) else d


def mutate(m, w, r, op, docs, folders, targets):
    def put(p, b, keep_time=False):
        real = w.real(p)
        make_folders(os.path.dirname(real))
        old = None
        if keep_time and seams.real["path_exists"](real):
            st = seams.real["stat"](real)
            old = (st.st_atime, st.st_mtime)
        with seams.real["open"](real, "wb") as f:
            f.write(b)
        seams.real["utime"](real, old or (w.wall(), w.wall()))
        docs[p] = b

    if op[0] == "edit":
        names = sorted(p for p in docs if p.startswith("/sim/docs/"))
        if len(op) > 3:
            names = [p for p in names if p.endswith(op[3])] or names
        if len(op) > 2:
            # something that this target holds
            t = targets[op[2] % len(targets)]
            names = [p for p in names if p == t or p.startswith(t + "/")] or names
        r.shuffle(names)
        for p in names:
            b = edit(r, p, docs[p])
            if b is not None and b != docs[p]:
                put(p, b, op[1])
                m.notes.append("edit %s%s" % (p, " (same modification time)" if op[1] else ""))
                return
    elif op[0] == "copy":
        f = r.choice(folders)
        to = f + " copy%d" % len(folders)
        for p in sorted(docs):
            if p.startswith(f + "/"):
                put(to + p[len(f):], docs[p])
        folders.append(to)
        for t in list(targets):
            if t == f or t.startswith(f + "/"):
                targets.append(to + t[len(f):])
        m.notes.append("copy %s to %s" % (f, to))
    elif op[0] == "zip":
        # a folder is packed (again)
        f = r.choice(folders)
        inside = {p[len(f) + 1:]: b for p, b in docs.items() if p.startswith(f + "/")}
        if inside:
            put(f + ".zip", gen.pack(inside, posixpath.basename(f), r.randrange(4)), r.random() < 0.3)
            if f in targets and f + ".zip" not in targets:
                targets.append(f + ".zip")
            m.notes.append("pack %s" % f)
    elif op[0] == "swap":
        # the contents of two folders change places
        if len(folders) > 1:
            a, b = r.sample(folders, 2)
            mine = {p: docs[p] for p in docs if p.startswith(a + "/")}
            other = {p: docs[p] for p in docs if p.startswith(b + "/")}
            same = [p for p in mine if b + p[len(a):] in other]
            for p in same:
                x, y = docs[p], docs[b + p[len(a):]]
                put(p, y)
                put(b + p[len(a):], x)
            m.notes.append("swap %d files of %s and %s" % (len(same), a, b))
    elif op[0] == "delete":
        f = r.choice(folders)
        names = sorted(p for p in docs if p.startswith(f + "/"))
        if names and r.random() < 0.6:
            names = [r.choice(names)]
        for p in names:
            seams.real["unlink"](w.real(p))
            del docs[p]
        m.notes.append("delete %s" % (names[0] if len(names) == 1 else f))
    elif op[0] == "time":
        w.clock += r.choice((0.001, 1, 3600, 100000))


# ------------------------------------------------------------------ C07: near-collisions of URIs

def near(m, job):
    """many remote schemas at URIs that look alike; every one declares its own elements"""
    import near as near_mod
    v = Verdict()
    u = near_mod.make(job["near"])
    m.install(u)
    for n, opens in enumerate(job["lives"]):
        paths = [u.entries[i % len(u.entries)] for i in opens]

        def make(f):
            return sorted(snap.qn(e.get_name()) for e in f.get_all_report_elements()), sorted(
                (snap.fact_row(x)[0], x.get_value_as_str()) for x in f.get_all_facts())
        status, outs = open_all(m, paths, make=make)
        if status[0] != "ok":
            v.bad("died", "the process ended: %s %s" % status)
        for what, st, value, d in outs:
            if st != "ok":
                v.bad("near", "open %s raised %s" % (what, value))
                continue
            if "!" in value:
                v.bad("near", "open %s: %s" % (what, value["!"]))
                continue
            els, facts = value
            want = sorted(u.elements_of[what])
            if list(els) != want:
                lost = [x for x in want if x not in els]
                twice = [x for x in els if x not in want]
                v.bad("near", "open %s: declared elements missing: %s; present: %s" % (
                    what, [(x, u.uri_of[x]) for x in lost[:2]], [(x, u.uri_of.get(x)) for x in twice[:2]]))
            elif list(facts) != sorted(u.facts_of[what]):
                v.bad("near", "open %s: the facts are not the declared ones" % what)
            v.probe("uris opened", len(els))
    return v.out()


# ------------------------------------------------------------------ C09: everything, once

def whole(m, job):
    v = Verdict()
    us = [universe(s) for s in job["universes"]]
    for u in us:
        m.install(u)
    todo = []
    for k in job["opens"]:
        u = us[k[0] % len(us)]
        todo.append((u, u.entries[k[1] % len(u.entries)]))
    o = Outcomes()
    truths = {e: u.truth[e] for u in us for e in u.entries}

    def body():
        for u, e in todo:
            o.open(e)

    def after(_):
        out = []
        for what, status, value, d in o.items:
            if status == "ok":
                try:
                    value = truth.compare(value, truths[what])
                except Exception as e:
                    value = "the filing cannot be read: " + W.describe(e)
            out.append((what, status, value, d))
        return out
    res, outs = m.life([("P", "P", body)], after=after)
    if res["P"][0] != "ok":
        v.bad("died", "the process ended: %s %s" % res["P"])
        return v.out()
    seen = set()
    for (u, e), (what, st, value, d) in zip(todo, outs):
        m.note("open %s: %s %s" % (what, st, value))
        if st != "ok":
            v.bad("whole", "a valid filing cannot be opened: %s raised %s" % (what, value))
            continue
        if value:
            v.bad("whole", "open %s: %s" % (what, value))
        asked = [r["uri"] for r in m.w.requests[d["req0"]:d["req1"]]]
        twice = sorted({x for x in asked if asked.count(x) > 1})
        if twice:
            v.bad("twice", "open %s requested %s %d times" % (what, twice[0], asked.count(twice[0])))
        need = {net.key(f) for f in truths[what].files if f.startswith("http")}
        extra = [x for x in asked if x not in need]
        if extra:
            v.bad("foreign", "open %s requested %s, which is not among the files of the filing that have to come from the network" % (what, extra[0]))
        missing = need - set(asked) - seen
        if missing:
            v.bad("skipped", "open %s never requested %s" % (what, sorted(missing)[0]))
        seen |= need
        v.probe("files per filing", len(truths[what].files))
        v.probe("facts", len(truths[what].facts))
    return v.out()


# ------------------------------------------------------------------ C16: nothing else is touched

def state(m):
    out = {}
    for top, dirs, files in os.walk(m.w.root):
        q = "/sim" + top[len(m.w.root):]
        if q in CACHES or any(q.startswith(c + "/") for c in CACHES) or q.startswith("/sim/home/.brel"):
            continue
        out[q + "/"] = None
        for n in files:
            p = os.path.join(top, n)
            st = seams.real["lstat"](p)
            out[q + "/" + n] = (seams._read_real(p), st.st_mtime_ns, st.st_mode)
    return out


def contained(m, job):
    import hostile
    v = Verdict()
    rows = []
    for spec in job["universes"]:
        u = universe(spec)
        m.install(u)
        rows += u.entries
    if job.get("hostile") is not None:
        h = hostile.make(job["hostile"])
        m.install(h)
        rows += h.entries
    if job.get("edgar"):
        import s_edgar
        rows += s_edgar.install_simple(m, job["edgar"])
    m.put("/sim/docs/keep.txt", b"keep me")
    m.put("/sim/home/.profile", b"export A=1")
    m.put("/sim/home/notes/todo.xml", b"<todo/>")
    m.put("/sim/tmp/other.tmp", b"somebody else's")
    before = state(m)
    for n, life in enumerate(job["lives"]):
        paths = [rows[i % len(rows)] for i in life["open"]]
        o = Outcomes()
        name = "P%d" % n

        def body():
            for p in paths:
                if isinstance(p, tuple):
                    import s_edgar
                    mod = s_edgar.load()
                    o.open(p, lambda q: mod.open_edgar(*q))
                else:
                    o.open(p)
        res, outs = m.life([(name, name, body)], after=lambda r: [(w_, s, x if s != "ok" else None, d) for w_, s, x, d in o.items])
        status = res[name]
        for what, st, value, d in outs or []:
            m.note("%s: open %s: %s" % (name, what, st if st == "ok" else value))
            v.probe("open " + st)
        m.note("%s: %s" % (name, status))
        now = state(m)
        for p in sorted(set(before) | set(now)):
            if p.startswith("/sim/tmp/") and p not in before and status[0] != "ok":
                continue        # a killed process may leave its temporary files
            if p.startswith("/sim/tmp/") and any(q.split("/")[:4] == p.split("/")[:4] for q in m.w.not_removed):
                continue        # the disk itself refused to remove it
            if before.get(p, 0) != now.get(p, 0):
                what = "created" if p not in before else "deleted" if p not in now else \
                    "changed" if not p.endswith("/") and before[p][0] != now[p][0] else "touched"
                if p.endswith("/") and p in before and p in now:
                    continue
                v.bad("touched", "opening %s %s %s" % (paths, what, p))
        before = {p: x for p, x in now.items()}
        if status[0] != "ok":
            for q in sorted((q for q in before if q.startswith("/sim/tmp/") and q not in ("/sim/tmp/", "/sim/tmp/other.tmp")), reverse=True):
                seams.real["rmdir" if q.endswith("/") else "unlink"](m.w.real(q))
                before.pop(q)
    for cls, text in m.w.flags:
        if cls == "outside":
            v.bad("outside", "tried to write outside the disk: " + text)
    docs_ops = [(a, op, p) for a, op, p in m.w.mutations if p.startswith("docs/")]
    if docs_ops:
        v.bad("touched", "wrote among the user's documents: %s %s" % docs_ops[0][1:])
    v.probe("mutations seen", len(m.w.mutations))
    return v.out()


# ------------------------------------------------------------------ C17: handles

def handles(m, job):
    v = Verdict()
    rows = []
    for spec in job["universes"]:
        u = universe(spec)
        m.install(u)
        rows += u.entries
    if job.get("broken"):
        # files of no kind that a taxonomy consists of
        for name in ("pic.png", "pic"):
            m.put("/sim/docs/bad/" + name, b"\x89PNG")
            m.serve("http://broken.example.org/" + name, b"\x89PNG")
    for p, b in job.get("broken", []):
        if isinstance(b, int):
            import hostile
            import plans
            b = hostile.bad_zip(b, plans.BROKEN)
        (m.put if p.startswith("/") else m.serve)(p, b.encode("latin-1") if isinstance(b, str) else b)
        rows.append(p)
    if job.get("edgar"):
        import s_edgar
        rows += s_edgar.install_simple(m, job["edgar"])
    for n, life in enumerate(job["lives"]):
        paths = [rows[i % len(rows)] for i in life["open"]]
        o = Outcomes()
        name = "P%d" % n
        left = {}

        def body():
            mod = None
            for p in paths:
                if isinstance(p, tuple):
                    import s_edgar
                    mod = mod or s_edgar.load()
                    o.open(p, lambda q: mod.open_edgar(*q))
                else:
                    o.open(p)
                o.items[-1][2] = o.items[-1][2] if o.items[-1][1] != "ok" else None
            left["files"] = sorted(seams.WORLD.open_files.values())
            left["responses"] = sorted(seams.WORLD.live_responses.values())
            left["fds"] = len(seams.FDS)
        res, extra = m.life([(name, name, body)], after=lambda r: (o.items, left))
        if extra is None:
            continue
        outs, left = extra
        for what, st, value, d in outs:
            m.note("%s: open %s: %s" % (name, what, st if st == "ok" else value))
            v.probe("open " + st)
            if d.get("files"):
                v.bad("files", "open %s %s and left %s open" % (what, "returned" if st == "ok" else "raised (%s)" % value, d["files"][0]))
            if d.get("responses"):
                v.bad("responses", "open %s %s and left the response of %s unread and open" % (
                    what, "returned" if st == "ok" else "raised (%s)" % value, d["responses"][0]))
        if res[name][0] == "ok" and not v.items:
            if left.get("files") or left.get("responses") or left.get("fds"):
                v.bad("growth", "after %d opens still open: %s" % (len(paths), left))
    return v.out()


SCENARIOS = {"faults": faults, "reopen": reopen, "concurrent": concurrent, "local": local, "near": near,
             "whole": whole, "contained": contained, "handles": handles}

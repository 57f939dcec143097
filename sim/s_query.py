"""Scenarios about what a filing answers (C08, C14, C15)."""
import gc
import io
import os
import random
import sys
import threading

import machine
import net
import seams
import snap
import world as W
from machine import isolated, universe

# ---------------------------------------------------------------------------------- queries


class Tty(io.TextIOBase):
    """stdout with a buffer for every actor"""

    def __init__(self):
        self.buffers = {}

    def write(self, s):
        a = W.current_actor()
        self.buffers.setdefault(a.name if a else None, []).append(s)
        return len(s)

    def flush(self):
        pass

    def take(self):
        a = W.current_actor()
        return "".join(self.buffers.pop(a.name if a else None, []))


TTY = Tty()
ARGS = {}       # argument objects are shared by the calls of a process, as a program's constants are


def arg(x):
    return ARGS.setdefault(repr(x), x) if isinstance(x, list) else x


def kw(k):
    return {a: arg(b) for a, b in sorted(k.items())}


def plain(x, depth=0):
    """plain data for any answer"""
    if depth > 50:
        return "deep"
    if isinstance(x, (str, int, float, bool, bytes, type(None))):
        return x
    if isinstance(x, dict):
        return [(plain(a, depth + 1), plain(b, depth + 1)) for a, b in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(y, depth + 1) for y in x]
    kind = type(x).__name__
    if kind == "DataFrame":
        return snap.frame(x)
    if kind == "Fact":
        return snap.fact_row(x)
    if kind == "ErrorInstance":
        return snap.error_row(x)
    if kind == "QName":
        return snap.qn(x)
    if kind == "Component":
        return (x.get_URI(), x.get_info())
    if kind in ("Concept", "Abstract", "Member", "LineItems", "Hypercube", "Dimension"):
        return snap.element_row(x)
    if hasattr(x, "get_roots"):
        return snap.network(x)
    if hasattr(x, "points_to"):
        return snap.target(x)
    if kind == "BrelLabel":
        return snap.label_row(x)
    text = str(x)
    return "%s %s" % (kind, W.describe(ValueError(text)))


def choose(xs, i):
    xs = list(xs)
    return xs[i % len(xs)] if xs else None


def networks(f):
    out = list(f.get_all_physical_networks())
    for c in f.get_all_components():
        out += [n for n in (c.get_presentation_network(), c.get_calculation_network(), c.get_definition_network()) if n is not None]
    return out


def pprinted(x):
    import brel.utils
    TTY.take()
    try:
        brel.utils.pprint(x)
    except BaseException:
        TTY.take()
        raise
    return TTY.take()


def name_as(q, form):
    if form == "qname":
        return q
    if form == "prefixed":
        return "%s:%s" % (q.get_prefix(), q.get_local_name())
    if form == "clark":
        return "{%s}%s" % (q.get_URL(), q.get_local_name())
    if form == "local":
        return q.get_local_name()
    return "no:%s" % q.get_local_name()


EXPORTS = ("fact_table", "core_fact_table", "components", "report_elements")


def evaluate(f, q):
    what = q[0]
    if what == "everything":
        return snap.ordered(f)
    if what == "get":
        return getattr(f, q[1])()
    if what == "export":
        name = {"report_elements": "generate_report_elements_as_pandas_df", "components": "generate_components_as_pandas_df"}.get(
            q[1], "generate_%s_pandas_df" % q[1])
        return getattr(f, name)(**kw(q[2]))
    if what == "labels":
        return f.get_all_labels() if q[1] else f.generate_labels_as_pandas_df()
    if what == "languages":
        return f.get_preferred_languages(arg(q[1]), *q[2:])
    if what == "param":
        return f.get_preferred_output_parameter(q[1], q[2])
    if what == "errors":
        from brel.errors.area import Area
        from brel.errors.severity import Severity
        if q[1] == "area":
            return f.get_errors_by_area(choose(Area, q[2]))
        return f.get_errors_by_severity(choose(Severity, q[2]))
    if what == "fact":
        x = choose(f.get_all_facts(), q[1])
        if x is None:
            return None
        h = q[2]
        if h == "int":
            return int(x)
        if h == "float":
            return float(x)
        if h == "bool":
            return bool(x)
        if h == "value":
            return x.get_value()
        if h == "dict":
            return x.convert_to_dict()
        if h == "iter":
            return list(x)
        if h == "print":
            return pprinted(x)
        if h == "core":
            return x.is_core()
        if h == "aspects":
            return [(str(a), a.get_name(), a.is_core()) for a in x.get_aspects()] + [plain(x.get_characteristic(a).get_value()) for a in x.get_aspects()]
        return (x.get_id(), str(x), x.get_decimals(), x.get_precision())
    if what == "element":
        x = choose(f.get_all_report_elements(), q[1])
        if x is None:
            return None
        h = q[2]
        if h == "labels":
            return x.get_labels()
        if h == "main":
            return x.select_main_label()
        if h == "has":
            return (x.has_label_with_language(q[3]), x.has_label_with_role("http://www.xbrl.org/2003/role/" + q[3]))
        if h == "dict":
            return x.convert_to_dict()
        return (str(x), x.get_id())
    if what in ("element named", "concept named", "facts named", "facts of"):
        xs = f.get_all_report_elements() if what == "element named" else f.get_all_concepts()
        x = choose(xs, q[1])
        if x is None:
            return None
        n = name_as(x.get_name(), q[2])
        if what == "element named":
            return f.get_report_element_by_name(n)
        if what == "concept named":
            return f.get_concept(n)
        if what == "facts named":
            return f.get_facts_by_concept_name(n)
        return f.get_facts_by_concept(x)
    if what == "component":
        x = choose(f.get_all_component_uris(), q[1])
        if q[2] == "missing":
            return f.get_component("urn:missing")
        if x is None:
            return None
        x = f.get_component(x)
        h = q[2]
        if h == "networks":
            return x.get_networks()
        if h == "dict":
            return x.convert_to_dict()
        if h == "print":
            return pprinted(x)
        if h == "consistent":
            c = x.get_calculation_network()
            return None if c is None else (snap.call(c.is_balance_consistent), snap.call(lambda: c.is_aggregation_consistent(f.get_all_facts())))
        return (x.get_URI(), x.get_info(), x.has_presentation_network(), x.has_calculation_network(), x.has_definition_network())
    if what == "network":
        x = choose(networks(f), q[1])
        if x is None:
            return None
        h = q[2]
        if h == "nodes":
            return x.get_all_nodes()
        if h == "roles":
            return (x.get_arc_roles(), snap.call(lambda: snap.qn(x.get_arc_name())), x.get_link_role(), snap.qn(x.get_link_name()))
        if h == "root":
            return x.get_root()
        if h == "dict":
            return x.convert_to_dict()
        if h == "print":
            return pprinted(x)
        if h == "down":
            return [(snap.target(n), n.is_leaf(), [snap.target(y) for y in n.get_all_descendants()]) for n in x.get_all_nodes()]
        return snap.network(x)
    if what == "facts printed":
        return pprinted(f.get_all_facts()[: q[1]])
    raise W.HarnessError("unknown query %s" % (q,))


def ask(f, q):
    """the answer as plain data; an exception is an answer, too"""
    try:
        return plain(evaluate(f, q))
    except (W.SimCrash, W.SimHang, W.SimStuck, W.HarnessError):
        raise
    except RecursionError:
        return ["!", "RecursionError"]
    except Exception as e:
        a = W.current_actor()
        if a is not None and a.dead:
            raise a.why
        return ["!", W.describe(e, seams.WORLD.root)]


def set_filing(f, k):
    f.set_filing_output_params(**kw(k))


def set_global(k):
    import brel
    if "only languages" in k:
        from brel.config.brel_config import BrelConfig
        BrelConfig.set_preferred_library_languages(arg(k["only languages"]))
    else:
        brel.Filing.set_global_output_params(**kw(k))


# ---------------------------------------------------------------------------------- answers in isolation

_answers = {}


def fresh_answers(m, spec, entry, settings, globs, cfg, queries):
    """what a filing opened alone, in a process of its own, answers to each query asked first"""
    key = repr((sorted(spec.items(), key=repr), entry, settings, globs, sorted(cfg.items())))
    known = _answers.setdefault(key, {})
    todo = [q for q in queries if repr(q) not in known]
    if todo:
        if len(_answers) > 300:
            _answers.clear()
            known = _answers.setdefault(key, {})
            todo = queries
        s = m.sub("alone", cfg)
        s.install(universe(spec))
        import brel
        keep = {}

        def body():
            keep["f"] = brel.Filing.open(entry)

        def after(res):
            if res["P"][0] != "ok":
                return None
            f = keep["f"]

            def one(q):
                def fn():
                    sys.stdout = TTY
                    for g in globs:
                        set_global(g)
                    if settings is not None:
                        set_filing(f, settings)
                    return ask(f, q)
                return fn
            return [isolated(one(q)) for q in todo]
        res, got = s.life([("P", "P", body)], after=after)
        m.merge(s, remembered=True)
        if got is None:
            return None
        for q, x in zip(todo, got):
            known[repr(q)] = x
    return known


# ---------------------------------------------------------------------------------- C15: reading only

def reading(m, job):
    """job["threads"] = [[query, ...], ...] on one filing; job["settings"], job["globals"]"""
    from s_files import Verdict
    v = Verdict()
    import brel
    spec = job["universes"][0]
    u = universe(spec)
    m.install(u)
    entry = u.entries[job.get("entry", 0) % len(u.entries)]
    settings, globs = job.get("settings"), job.get("globals") or []
    cfg = {k: m.cfg[k] for k in ("lang",) if k in m.cfg}
    # each query with the settings that are in force then; only a single thread changes them
    force, now = {}, (settings, tuple(map(repr, globs)))
    known = {repr(g): g for g in globs}
    for k, queries in enumerate(job["threads"]):
        for i, q in enumerate(queries):
            if q[0] == "set":
                now = (q[1], now[1])
            elif q[0] == "global":
                known[repr(q[1])] = q[1]
                now = (now[0], (now[1] if "only languages" in q[1] else ()) + (repr(q[1]),))
            else:
                force["T%d" % k, i] = now
    by, want = {}, {}
    for k, queries in enumerate(job["threads"]):
        for i, q in enumerate(queries):
            if ("T%d" % k, i) in force:
                by.setdefault(repr(force["T%d" % k, i]), (force["T%d" % k, i], []))[1].append(q)
    by.setdefault(repr(now), (now, []))[1].append(["everything"])
    for key, ((st, gs), qs) in by.items():
        want[key] = fresh_answers(m, spec, entry, st, [known[g] for g in gs], cfg, qs)
        if want[key] is None:
            v.bad("reference", "a valid filing cannot be opened: %s" % entry)
            return v.out()
    keep, said = {}, {}

    def opening():
        keep["f"] = brel.Filing.open(entry)
        sys.stdout = TTY
        for g in globs:
            set_global(g)
        if settings is not None:
            set_filing(keep["f"], settings)
    bodies = []
    for k, queries in enumerate(job["threads"]):
        name = "T%d" % k

        def body(queries=queries, name=name):
            for i, q in enumerate(queries):
                if q[0] == "set":
                    set_filing(keep["f"], q[1])
                elif q[0] == "global":
                    set_global(q[1])
                else:
                    said[name, i] = ask(keep["f"], q)
        bodies.append((name, "P", body))

    def after(res):
        last = ask(keep["f"], ["everything"]) if "f" in keep else None
        return said, last
    res, extra = m.life(bodies, after=after, before=[("open", "P", opening)])
    for n, st in res.items():
        if st[0] != "ok":
            v.bad("reading", "%s: %s %s" % (n, st[0], st[1]))
    if extra is None:
        return v.out()
    said, last = extra
    for k, queries in enumerate(job["threads"]):
        for i, q in enumerate(queries):
            if ("T%d" % k, i) not in said:
                continue
            got = said["T%d" % k, i]
            m.note("T%d: %s" % (k, q))
            v.probe("answers judged")
            st = force["T%d" % k, i]
            d = snap.diff(want[repr(st)][repr(q)], got, "answer")
            if d:
                v.bad("answer", "thread %d of %d, query %d %s: a fresh filing answers differently: %s" % (k, len(job["threads"]), i, q, d))
    d = snap.diff(want[repr(now)][repr(["everything"])], last, "filing")
    if d and not v.items:
        v.bad("changed", "after the queries the filing is not the one that was opened: %s" % d)
    return v.out()


# ---------------------------------------------------------------------------------- C14: independence

BAD_PATHS = ("/sim/docs/nothing.xml", "https://nowhere.example.org/x.xsd", "/sim/docs/broken.xml")


def independent(m, job):
    """job["actors"] = [[op, ...], ...]; op: ["open", slot, entry], ["ask", slot, query], ["set", slot, settings],
    ["global", settings], ["drop", slot], ["bad", i]. Slots belong to one actor. Globals only with one actor or in job["globals"]."""
    from s_files import Verdict
    v = Verdict()
    import brel
    rows = []
    for spec in job["universes"]:
        u = universe(spec)
        m.install(u)
        rows += [(spec, e) for e in u.entries]
    m.put("/sim/docs/broken.xml", b"<xbrl><unclosed></xbrl>")
    cfg = {k: m.cfg[k] for k in ("lang",) if k in m.cfg}
    record = []
    before_globals = job.get("globals") or []

    def opening():
        sys.stdout = TTY
        for g in before_globals:
            set_global(g)
    bodies = []
    for k, ops in enumerate(job["actors"]):
        name = "T%d" % k

        def body(ops=ops, name=name):
            slots, settings = {}, {}
            globs = list(before_globals)
            for op in ops:
                if op[0] == "open":
                    spec, e = rows[op[2] % len(rows)]
                    try:
                        slots[op[1]] = (spec, e, brel.Filing.open(e))
                        settings.pop(op[1], None)
                    except (W.SimCrash, W.SimHang, W.SimStuck):
                        raise
                    except Exception as x:
                        record.append((name, op, None, None, None, ["!", W.describe(x)]))
                elif op[0] == "bad":
                    try:
                        brel.Filing.open(BAD_PATHS[op[1] % len(BAD_PATHS)])
                    except (W.SimCrash, W.SimHang, W.SimStuck):
                        raise
                    except Exception:
                        pass
                elif op[0] == "global":
                    set_global(op[1])
                    globs = [op[1]] if "only languages" not in op[1] else globs + [op[1]]
                elif op[1] not in slots:
                    continue
                elif op[0] == "set":
                    set_filing(slots[op[1]][2], op[2])
                    settings[op[1]] = op[2]
                elif op[0] == "drop":
                    del slots[op[1]]
                    gc.collect()
                elif op[0] == "ask":
                    spec, e, f = slots[op[1]]
                    record.append((name, op, (spec, e), settings.get(op[1]), list(globs), ask(f, op[2])))
        bodies.append((name, "P", body))
    res, extra = m.life(bodies, after=lambda r: record, before=[("start", "P", opening)])
    for n, st in res.items():
        if st[0] != "ok":
            v.bad("other", "%s: %s %s" % (n, st[0], st[1]))
    groups = {}
    for name, op, who, settings, globs, got in extra or []:
        m.note("%s: %s of %s" % (name, op, who and who[1]))
        if who is None:
            v.bad("open", "open %s raised %s" % (rows[op[2] % len(rows)][1], got[1]))
            continue
        groups.setdefault(repr((sorted(who[0].items(), key=repr), who[1], settings, globs)), []).append((name, op, who, settings, globs, got))
    for items in groups.values():
        _, _, (spec, e), settings, globs, _ = items[0]
        want = fresh_answers(m, spec, e, settings, globs, cfg, [it[1][2] for it in items])
        if want is None:
            v.bad("reference", "a valid filing cannot be opened: %s" % e)
            continue
        for name, op, who, settings, globs, got in items:
            v.probe("answers judged")
            d = snap.diff(want[repr(op[2])], got, "answer")
            if d:
                v.bad("answer", "%s: %s answers %s differently than alone (settings %s, global %s): %s" % (name, e, op[2], settings, globs, d))
    return v.out()


# ---------------------------------------------------------------------------------- C08: determinism

def variants(m, job):
    """the same entry opened under different circumstances; the values of all must be identical.

    variant: {"listing", "identity", "cwd", "warm": [entries], "twice": n, "t0", "latency"...} = cfg of a machine
    """
    from s_files import Verdict
    v = Verdict()
    import brel
    spec = job["universes"][0]
    u = universe(spec)
    entry = u.entries[job.get("entry", 0) % len(u.entries)]
    first, what0 = None, None
    for var in job["variants"]:
        s = m.sub("variant", {k: x for k, x in var.items() if k not in ("warm", "twice", "again")})
        s.install(u)
        for other in job["universes"][1:]:
            s.install(universe(other))
        if "times" in var:
            # when a file was changed says nothing about what it holds
            t = random.Random("times %d" % var["times"])
            for p in sorted(u.docs):
                then = s.w.wall() - t.choice((0, 1, 60, 86400)) * t.random()
                seams.real["utime"](s.w.real(p), (then, then))
        keep = []

        def body():
            if var.get("thread"):
                th = threading.Thread(target=work)
                th.start()
                th.join()
            else:
                work()

        def work():
            for e in var.get("warm") or []:
                brel.Filing.open(u.entries[e % len(u.entries)])
            for _ in range(var.get("twice", 1)):
                keep.append(brel.Filing.open(entry))
        for turn in range(1 + bool(var.get("again"))):
            keep.clear()
            res, got = s.life([("P", "P", body)], after=lambda r: [snap.ordered(f) for f in keep] if r["P"][0] == "ok" else None)
            if res["P"][0] != "ok":
                got = [{"!": str(res["P"][1])}]
            for n, g in enumerate(got or []):
                v.probe("opens compared")
                label = "%s%s%s" % (var, ", open %d" % (n + 1) if n else "", ", from the cache in a new process" if turn else "")
                if first is None:
                    first, what0 = g, label
                    continue
                d = snap.diff(first, g, "filing")
                if d:
                    v.bad("differs", "two opens of %s differ: %s; first: %s; second: %s" % (entry, d, what0, label))
        m.merge(s)
    return v.out(value={"digest": snap.digest(first), "snapshot": first if job.get("full") else None, "raised": bool(first) and "!" in first})


SCENARIOS = {"reading": reading, "independent": independent, "variants": variants}

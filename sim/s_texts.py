"""Scenario about the texts of exported tables (C22): every export against a reference model of the settings."""
import copy
import csv
import os

import pandas as pd

import seams
import snap
from machine import isolated, universe
from s_query import TTY, ask, set_filing, set_global

# what the locale of the environment says about the language of the system
SYSTEM = {"": None, "C": None, "POSIX": None, "de_DE.UTF-8": "de-DE", "de_DE": "de-DE", "fr_FR.UTF-8": "fr-FR", "en_US.UTF-8": "en-US", "it_IT.UTF-8": "it-IT", "de_CH.UTF-8": "de-CH",
          "es_ES.UTF-8": "es-ES", "pt_BR.UTF-8": "pt-BR"}
TERMS = "http://www.brel.com/translations/"
FLAGS = ("match_locale", "allow_mixed", "allow_default", "allow_system_language", "allow_report_language")
LIBRARY = dict({k: True for k in FLAGS}, languages=[])


# ---------------------------------------------------------------------------------- the filing, as plain data

def labels(x):
    return [(y.get_language(), str(y)) for y in x.get_labels()]


def raw(f):
    """everything an export shows, without any settings"""
    from brel.characteristics import Aspect
    facts, elements, components = [], [], []
    for x in f.get_all_facts():
        aspects = []
        for a in x.get_aspects():
            c = x.get_characteristic(a)
            v = c.get_value()
            if hasattr(v, "get_labels"):
                value = ["labels", labels(v), v.get_name().get_local_name()]
            elif a == Aspect.UNIT:
                value = ["term", "unit", c.get_name()]
            else:
                value = ["text", str(v)]
            aspects.append([a.get_name(), labels(a), value, a in (Aspect.CONCEPT, Aspect.PERIOD, Aspect.ENTITY, Aspect.UNIT)])
        facts.append([aspects, x.get_id(), x.get_value_as_str()])
    for e in f.get_all_report_elements():
        q = e.get_name()
        kind = type(e).__name__
        extra = None
        if kind == "Concept":
            extra = [e.get_period_type(), e.get_balance_type(), bool(e.is_nillable()), e.get_data_type()]
        elif kind == "Dimension":
            t = None if e.is_explicit() else e.get_type()
            extra = [e.is_explicit(), t and t.get_local_name()]
        elements.append([kind, "%s:%s" % (q.get_prefix(), q.get_local_name()), labels(e), str(e.select_main_label()), extra])
    for c in f.get_all_components():
        components.append([c.get_URI(), c.get_info(), c.get_presentation_network() is not None, c.get_calculation_network() is not None, c.get_definition_network() is not None])
    return {"facts": facts, "elements": elements, "components": components, "languages": list(f.get_preferred_languages([], True, False, False))}


# ---------------------------------------------------------------------------------- the model

_terms = {}


def terms():
    """the translations the library comes with: {(topic, name): [(language, text)]}"""
    if not _terms:
        path = os.path.join(os.environ["SIM_REPO"], "brel", "config", "translations.csv")
        with seams.real["open"](path, "r", encoding="utf-8-sig") as f:
            for row in list(csv.reader(f))[1:]:
                texts = _terms.setdefault((row[0][len(TERMS):], row[1]), {})
                texts["%s-%s" % (row[2], row[3])] = row[4]
    return _terms


class Nothing(Exception):
    """no language allowed has the text"""


class Texts:
    def __init__(self, languages, exact):
        self.languages, self.exact = languages, exact

    def same(self, a, b):
        a, b = a.lower(), b.lower()
        return a == b if self.exact else a.split("-")[0] == b.split("-")[0]

    def first(self, choices, default):
        for language in self.languages:
            if language == "":
                return default
            for said, text in choices:
                if self.same(language, said):
                    return text
        raise Nothing()

    def term(self, topic, name):
        known = terms().get((topic, name))
        return name if known is None else self.first(list(known.items()), name)

    def yes(self, x):
        return self.term("boolean", "true" if x else "false")


def fact_dict(x, t):
    aspects, ident, value = x
    d = {}
    for name, said, v, _ in aspects:
        key = t.first(said, name)
        d[key] = t.first(v[1], v[2]) if v[0] == "labels" else t.term(v[1], v[2]) if v[0] == "term" else v[1]
    i, w = t.term("literal", "id"), t.term("literal", "value")
    d[i] = ident if ident else t.term("literal", "none")
    d[w] = value
    return d


KINDS = {"Concept": "concept", "Abstract": "abstract", "Dimension": "dimension", "Hypercube": "hypercube", "Member": "member", "LineItems": "line-items"}


def element_dict(x, t):
    kind, name, said, main, extra = x
    rows = [(t.term("literal", "name"), name), (t.term("literal", "label"), t.first(said, main)), (t.term("literal", "report-element-type"), t.term("report-element", KINDS[kind]))]
    if kind == "Concept":
        period, balance, nillable, data = extra
        rows += [(t.term("literal", "period-type"), t.term("period-type", period)),
                 (t.term("literal", "balance-type"), t.term("literal", "none") if balance is None else t.term("balance-type", balance)),
                 (t.term("literal", "nillable"), t.yes(nillable)), (t.term("literal", "data-type"), t.term("data-type", data.split(":")[-1]))]
    elif kind == "Dimension":
        explicit, data = extra
        rows += [(t.term("literal", "is-explicit"), t.yes(explicit)),
                 (t.term("literal", "dimension-type"), t.term("literal", "none") if data is None else t.term("data-type", data))]
    return dict(rows)


def component_dict(x, t):
    return {t.term("literal", "network-identifier"): x[0], t.term("literal", "info"): x[1], t.term("literal", "presentation-network"): t.yes(x[2]),
            t.term("literal", "calculation-network"): t.yes(x[3]), t.term("literal", "definition-network"): t.yes(x[4])}


def flag(name, passed, filing, library):
    for x in (passed, filing.get(name), library.get(name)):
        if x is not None:
            return x
    return False


def listed(x):
    return [] if not x else [x] if isinstance(x, str) else list(x)


def in_force(passed, report, system, default, filing, library, locale, available):
    out = listed(passed) + listed(filing.get("languages")) + listed(library.get("languages"))
    if system and SYSTEM[locale]:
        out.append(SYSTEM[locale])
    if report:
        out += available
    if default:
        out.append("")
    return list(dict.fromkeys(out))


def expected(q, data, filing, library, locale):
    """what the answer may be: a list of plain answers, or None where nothing is said"""
    filing = filing or {}
    if q[0] == "param":
        return [flag(q[2], q[1], filing, library)]
    if q[0] == "languages":
        return [in_force(q[1], q[2], q[3], q[4], filing, library, locale, data["languages"])]
    k = q[2]
    f = {n: flag(n, k.get(n), filing, library) for n in FLAGS}
    languages = in_force(k.get("languages"), f["allow_report_language"], f["allow_system_language"], f["allow_default"], filing, library, locale, data["languages"])
    if not languages:
        return None
    rows, how = {"fact_table": (data["facts"], fact_dict), "core_fact_table": ([x for x in data["facts"] if all(a[3] for a in x[0])], fact_dict),
                 "components": (data["components"], component_dict), "report_elements": (data["elements"], element_dict)}[q[1]]
    for some in [languages] if f["allow_mixed"] else [[x] for x in languages]:
        try:
            return [plain_frame([how(x, Texts(some, f["match_locale"])) for x in rows])]
        except Nothing:
            continue
    # no language has it: an error, or, without mixing, an empty table
    return ["raises"] if f["allow_mixed"] else ["raises", plain_frame([])]


def plain_frame(rows):
    return snap.frame(pd.DataFrame(rows))


# ---------------------------------------------------------------------------------- the scenario

_raw = {}


def alone(m, spec, entry):
    """the filing as plain data, opened alone in a process of its own"""
    key = repr((sorted(spec.items(), key=repr), entry))
    if key not in _raw:
        s = m.sub("alone", {"lang": ""})
        s.install(universe(spec))
        import brel
        keep = {}

        def body():
            keep["f"] = brel.Filing.open(entry)
        res, got = s.life([("P", "P", body)], after=lambda r: isolated(lambda: raw(keep["f"])) if r["P"][0] == "ok" else None)
        m.merge(s, remembered=True)
        if len(_raw) > 200:
            _raw.clear()
        _raw[key] = got
    return _raw[key]


def exports(m, job):
    """job["open"] = entries of the shared filings, slots 0..; job["actors"] = [[op, ...], ...]; op: ["ask", slot, query], ["open", slot, entry], ["set", slot, settings],
    ["global", settings], ["locale", value]; "global" and "locale", and "set" of shared slots, only with one actor"""
    from s_files import Verdict
    v = Verdict()
    import brel
    rows = []
    for spec in job["universes"]:
        u = universe(spec)
        m.install(u)
        rows += [(spec, e, u) for e in u.entries]
    start = {"shared": {}, "record": [], "globals": copy.deepcopy(job.get("globals") or [])}

    def opening():
        import sys
        sys.stdout = TTY
        for g in job.get("globals") or []:
            set_global(g)
        for k, e in enumerate(job["open"]):
            start["shared"][k] = (rows[e % len(rows)], brel.Filing.open(rows[e % len(rows)][1]))
    bodies = []
    record = start["record"]
    for k, ops in enumerate(job["actors"]):
        name = "T%d" % k

        def body(ops=ops, name=name):
            slots, settings = dict(start["shared"]), {}
            globs = list(start["globals"])
            locale = m.cfg["lang"]
            # what the program gives to the library may be changed by it; the model reads a copy
            for op, said in zip(ops, copy.deepcopy(ops)):
                if op[0] == "open":
                    row = rows[op[2] % len(rows)]
                    slots[op[1]] = (row, brel.Filing.open(row[1]))
                    settings.pop(op[1], None)
                elif op[0] == "global":
                    set_global(op[1])
                    globs.append(said[1])
                elif op[0] == "locale":
                    locale = op[1]
                    os.environ["LANG"] = locale
                elif op[1] not in slots:
                    continue
                elif op[0] == "set":
                    set_filing(slots[op[1]][1], op[2])
                    settings[op[1]] = said[2]
                elif op[0] == "ask":
                    (spec, e, _), f = slots[op[1]]
                    record.append((name, said, (spec, e), settings.get(op[1]), list(globs), locale, ask(f, op[2])))
        bodies.append((name, "P", body))
    res, extra = m.life(bodies, after=lambda r: record, before=[("start", "P", opening)])
    for n, st in res.items():
        if st[0] != "ok":
            v.bad("other", "%s: %s %s" % (n, st[0], st[1]))
    for name, op, (spec, e), settings, globs, locale, got in extra or []:
        m.note("%s: %s of %s" % (name, op[2], e))
        data = alone(m, spec, e)
        if data is None:
            v.bad("reference", "a valid filing cannot be opened: %s" % e)
            break
        said = universe(spec).truth[e].languages
        if set(data["languages"]) != said or len(data["languages"]) != len(said):
            v.bad("languages", "%s has labels and footnotes in %s, its languages are said to be %s" % (e, sorted(said), data["languages"]))
            break
        library = dict(LIBRARY)
        for g in globs:
            library = dict(library, languages=listed(g["only languages"])) if "only languages" in g else dict(g)
        want = expected(op[2], data, settings, library, locale)
        if want is None:
            continue
        v.probe("answers judged")
        raised = isinstance(got, list) and got and got[0] == "!"
        if raised:
            if "raises" not in want:
                v.bad("raised", "%s of %s raised %s; settings of the filing %s, of the library %s, locale %r" % (op[2], e, got[1], settings, globs, locale))
            else:
                v.probe("no language has it")
            continue
        told = [snap.diff(w, got, "export" if op[2][0] == "export" else "answer") if w != "raises" else "an error was expected, not %s" % snap.short(got) for w in want]
        if all(told):
            v.bad("text", "%s of %s: %s; settings of the filing %s, of the library %s, locale %r" % (op[2], e, told[-1], settings, globs, locale))
    return v.out()


SCENARIOS = {"exports": exports}

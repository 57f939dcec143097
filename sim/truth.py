"""Compares an opened filing with what the generator declared, each thing exactly once."""
from collections import Counter

import gen
import snap


def value(v):
    """numbers compare as numbers, markup as markup: inline facts are formatted by their transformation"""
    if isinstance(v, str) and "<" in v:
        try:
            return gen.fragment(v)
        except gen.ElementTree.ParseError:
            pass
    return snap.number(v)


def walk(n, edges, seen, depth=0):
    if depth > 60:
        return
    me = snap.target(n)
    places = [float(c.get_order()) for c in n.get_children()]
    if places != sorted(places):
        edges.append((n, me, n, "children out of order %s" % places, None))
    for c in n.get_children():
        extra = None
        if hasattr(c, "get_weight"):
            extra = c.get_weight()
        elif hasattr(c, "get_preferred_label_role"):
            extra = c.get_preferred_label_role()
        edges.append((n, me, c, snap.target(c), extra))
        walk(c, edges, seen, depth + 1)


def edge_key(kind, me, to, c, extra):
    if kind in ("PresentationNetwork", "CalculationNetwork", "DefinitionNetwork"):
        return (me, to, float(c.get_order()), c.get_arc_role(), extra)
    if kind == "ReferenceNetwork":
        content = c.get_resource().get_content()
        flat = tuple(sorted((str(k).split("}")[-1].split(":")[-1], str(v)) for k, v in content.items()))
        return (me, ("reference", c.get_resource().get_role(), flat))
    if kind == "FootnoteNetwork":
        return (me, to, float(c.get_order()))
    return (me, to)


def tidy(e):
    """footnotes of inline filings come wrapped in markup"""
    import re
    if isinstance(e[1], tuple) and e[1] and e[1][0] == "footnote":
        return (e[0], ("footnote", re.sub(r"<[^>]*>", "", e[1][1]).replace("&amp;", "&").replace("&#233;", "\u00e9").strip())) + e[2:]
    return e


def first(c):
    return snap.short(sorted(c.elements(), key=repr)[0])


def alike(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return n


def compare(f, t):
    """None, or a description of the first thing that is missing, wrong or there too often"""
    def multi(name, want, got):
        want, got = Counter(want), Counter(got)
        if want == got:
            return None
        if want - got:
            text = "%s: %d declared but missing or different, e.g. %s" % (name, sum((want - got).values()), first(want - got))
            if got - want:
                near = first(want - got)[:40]
                best = max(sorted((got - want).elements(), key=repr), key=lambda x: alike(near, repr(x)))
                text += "; found instead e.g. " + snap.short(best)
            return text
        return "%s: %d not declared or too often, e.g. %s" % (name, sum((got - want).values()), first(got - want))

    rows = []
    for x in f.get_all_facts():
        concept, val, period, entity, unit, dims, fid, *exact = snap.fact_row(x)[:9]
        rows.append((concept, value(val), period, entity, unit, tuple(sorted(dims)), fid) + tuple(exact))
    d = multi("facts", [(c, value(v)) + tuple(rest) for c, v, *rest in t.facts], rows)
    if d:
        return d
    els = f.get_all_report_elements()
    got = Counter(snap.qn(e.get_name()) for e in els)
    d = multi("report elements", list(t.elements), got.elements())
    if d:
        return d
    for e in els:
        want = t.elements[snap.qn(e.get_name())]
        kind = type(e).__name__
        have = (kind, None, None, None, None)
        if kind == "Concept":
            have = (kind, e.get_period_type(), e.get_balance_type(), bool(e.is_nillable()), str(e.get_data_type()))
        if want != have:
            return "report element %s: declared %s, found %s" % (snap.qn(e.get_name()), want, have)
    d = multi("labels", t.labels, [(snap.qn(e.get_name()),) + snap.label_row(x) for e in els for x in e.get_labels()])
    if d:
        return d
    nets = [n for n in f.get_all_physical_networks()]
    for c in f.get_all_components():
        nets += [n for n in (c.get_presentation_network(), c.get_calculation_network(), c.get_definition_network()) if n is not None]
    seen, edges, roots = set(), {}, {}
    for n in nets:
        if id(n) in seen:
            continue
        seen.add(id(n))
        kind = type(n).__name__
        key = (kind, bool(n.is_physical()), n.get_link_role())
        out = []
        for r in n.get_roots():
            roots.setdefault(key, []).append(snap.target(r))
            walk(r, out, set())
        edges.setdefault(key, []).extend(tidy(edge_key(kind, me, to, c, x)) for _, me, c, to, x in out)
    for key in sorted(set(edges) | set(t.edges), key=repr):
        d = multi("relationships of %s" % (key,), map(tidy, t.edges.get(key, [])), edges.get(key, []))
        if d:
            return d
    for key in sorted(t.roots, key=repr):
        if set(roots.get(key, [])) != t.roots[key]:
            return "roots of %s: declared %s, found %s" % (key, sorted(t.roots[key])[:3], sorted(roots.get(key, []), key=repr)[:3])
    d = multi("components", [(u, i) for u, i, *_ in t.components],
              [(c.get_URI(), c.get_info() or "") for c in f.get_all_components()])
    if d:
        return d
    for c in f.get_all_components():
        for what, has in (("Presentation", c.has_presentation_network()), ("Calculation", c.has_calculation_network()),
                          ("Definition", c.has_definition_network())):
            if has != ((what + "Network", what == "Definition" and False, c.get_URI()) in t.edges or
                       (what + "Network", False, c.get_URI()) in t.roots):
                return "component %s: %s network %s" % (c.get_URI(), what, "unexpected" if has else "missing")
    if not t.faulty:
        for e in f.get_all_errors():
            return "an error is reported where there is none: %s" % snap.short(snap.error_row(e))
    return None

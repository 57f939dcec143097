"""What a filing answers, through its public interface, as plain data.

canon(filing)    order-insensitive: what the filing says
ordered(filing)  everything in the order in which the filing gives it, with the exports
"""
import hashlib
import json


def call(f, *a, **k):
    """value of an accessor, or the kind of exception it raises"""
    try:
        return f(*a, **k)
    except Exception as e:      # noqa: the answer of this accessor is that it raises
        return "!" + type(e).__name__


def qn(q):
    try:
        return "{%s}%s" % (q.get_URL(), q.get_local_name())
    except Exception:
        return str(q)


def number(v):
    try:
        return repr(float(v))
    except (TypeError, ValueError):
        return v


def fact_row(f):
    from brel.characteristics import Aspect
    concept = call(lambda: qn(f.get_concept().get_name()))
    period = f.get_period()
    entity = f.get_entity()
    unit = f.get_unit()
    dims = []
    for a in f.get_aspects():
        if a.is_core():
            continue
        c = f.get_characteristic(a)
        v = c.get_value()
        name = call(lambda: qn(c.get_dimension().get_name()))
        dims.append((name, v if isinstance(v, str) else qn(v.get_name())))
    p = None
    if period is not None:
        p = str(period.get_instant_period()) if period.is_instant() else "%s %s" % (
            period.get_start_period(), period.get_end_period())
    u = None
    if unit is not None:
        u = "%s %s %s" % (unit.get_name(), [qn(x) for x in unit.get_numerators()], [qn(x) for x in unit.get_denominators()])
    return (concept, f.get_value_as_str(), p, None if entity is None else "%s %s" % (entity.get_schema(), entity.get_value()),
            u, tuple(dims), f.get_id(), repr(call(f.get_decimals)), repr(call(f.get_precision)))


def label_row(x):
    return (x.get_label_role(), x.get_language(), str(x))


def element_row(e):
    kind = type(e).__name__
    extra = ()
    if kind == "Concept":
        extra = (e.get_period_type(), e.get_balance_type(), bool(e.is_nillable()), str(e.get_data_type()))
    elif kind == "Dimension":
        extra = (e.is_explicit(), call(lambda: qn(e.get_type())))
    return (qn(e.get_name()), kind, extra, tuple(label_row(x) for x in e.get_labels()))


def target(n):
    what = n.points_to()
    if what == "report element":
        return qn(n.get_report_element().get_name())
    if what == "fact":
        f = n.get_fact()
        row = fact_row(f)
        return ("fact", f.get_id(), row[0]) + row[2:5]
    r = n.get_resource()
    kind = type(r).__name__
    if kind == "BrelLabel":
        return ("label",) + label_row(r)
    if kind == "BrelFootnote":
        return ("footnote", r.get_content())
    content = call(r.get_content)
    if isinstance(content, dict):
        content = tuple(sorted((str(k), str(v)) for k, v in content.items()))
    return (kind, content)


def node(n, depth=0):
    if depth > 60:
        return "deep"
    extra = None
    if hasattr(n, "get_weight"):
        extra = n.get_weight()
    elif hasattr(n, "get_preferred_label_role"):
        extra = n.get_preferred_label_role()
    return (target(n), float(n.get_order()), call(n.get_arc_role), extra,
            [node(c, depth + 1) for c in n.get_children()])


def network(net):
    return (type(net).__name__, bool(net.is_physical()), net.get_link_role(), call(lambda: qn(net.get_link_name())),
            [node(r) for r in net.get_roots()])


def component(c):
    nets = [None if n is None else network(n) for n in
            (c.get_presentation_network(), c.get_calculation_network(), c.get_definition_network())]
    return (c.get_URI(), c.get_info(), nets)


def error_row(e):
    return (call(e.get_full_error_code), str(call(e.get_severity)), call(e.get_message))


def _sorted(x):
    return sorted(x, key=repr)


def canon_node(n):
    if not isinstance(n, tuple):
        return n
    t, order, ar, extra, kids = n
    return (t, order, ar, extra, _sorted(canon_node(c) for c in kids))


def canon_net(n):
    if n is None:
        return None
    return n[:4] + (_sorted(canon_node(r) for r in n[4]),)


def canon(f, errors=True):
    """what the filing says, however it orders it"""
    d = {}
    d["facts"] = _sorted(x[:5] + (tuple(_sorted(x[5])),) + x[6:] for x in map(fact_row, f.get_all_facts()))
    d["elements"] = _sorted(x[:3] + (tuple(_sorted(x[3])),) for x in map(element_row, f.get_all_report_elements()))
    d["networks"] = _sorted(canon_net(network(x)) for x in f.get_all_physical_networks())
    d["components"] = _sorted((x[0], x[1], [canon_net(n) for n in x[2]]) for x in map(component, f.get_all_components()))
    d["reported"] = _sorted(qn(c.get_name()) for c in f.get_all_reported_concepts())
    if errors:
        d["errors"] = _sorted(error_row(e) for e in f.get_all_errors())
    return d


def frame(df):
    return (list(map(str, df.columns)), df.to_csv())


def exports(f):
    d = {}
    for name, fn in (("facts", f.generate_fact_table_pandas_df), ("core", f.generate_core_fact_table_pandas_df),
                     ("components", f.generate_components_as_pandas_df), ("labels", f.generate_labels_as_pandas_df),
                     ("elements", f.generate_report_elements_as_pandas_df)):
        d[name] = call(lambda: frame(fn()))
    return d


def ordered(f, frames=True):
    """everything, in the order given"""
    d = {}
    d["facts"] = [fact_row(x) for x in f.get_all_facts()]
    d["elements"] = [element_row(x) for x in f.get_all_report_elements()]
    d["networks"] = [network(x) for x in f.get_all_physical_networks()]
    d["components"] = [component(x) for x in f.get_all_components()]
    d["errors"] = [error_row(e) for e in f.get_all_errors()]
    d["reported"] = [qn(c.get_name()) for c in f.get_all_reported_concepts()]
    nets = list(f.get_all_physical_networks())
    for c in f.get_all_components():
        nets += [n for n in (c.get_presentation_network(), c.get_calculation_network(), c.get_definition_network()) if n is not None]
    d["net details"] = [(call(n.get_arc_roles), [target(x) for x in n.get_all_nodes()],
                         [[target(y) for y in x.get_all_descendants()] for x in n.get_roots()]) for n in nets]
    d["kinds"] = [[qn(x.get_name()) for x in g()] for g in (
        f.get_all_concepts, f.get_all_abstracts, f.get_all_line_items, f.get_all_hypercubes, f.get_all_dimensions, f.get_all_members)]
    d["uris"] = list(f.get_all_component_uris())
    d["languages"] = [call(lambda: list(f.get_preferred_languages(None, a, False, True))) for a in (False, True)]
    d["main labels"] = [call(lambda: label_row(e.select_main_label())) for e in f.get_all_report_elements()]
    if frames:
        d["exports"] = exports(f)
    return d


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:20]


def diff(a, b, path=""):
    """a short description of the first difference"""
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return "%s: %s != %s" % (path, short(a), short(b))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a or k not in b:
                return "%s.%s: only in the %s" % (path, k, "first" if k in a else "second")
            d = diff(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            sa, sb = {repr(x) for x in a}, {repr(x) for x in b}
            odd = [x for x in a if repr(x) not in sb] or [x for x in b if repr(x) not in sa]
            return "%s: %d items != %d items; e.g. %s" % (path, len(a), len(b), short(odd[0] if odd else None))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %s != %s" % (path, short(a), short(b))


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."

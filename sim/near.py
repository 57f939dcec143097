"""Remote schemas at URIs that are easy to mistake for each other."""
import random
from xml.sax.saxutils import quoteattr

import net

SEPS = "/ _ . : ? & = - ~ , ; @ ! ( ) * + %2F %20 // ?? __ /_/ /./x/ %5C %3A | ^ $".split()


class Near:
    def __init__(self):
        self.servers, self.docs, self.entries = {}, {}, []
        self.elements_of, self.facts_of, self.uri_of = {}, {}, {}


def family(r, n, wide):
    """n distinct URIs, many of them one edit apart"""
    hosts = ["h.example.org", "www.h.example.org", "h.example.org:8080", "h.example.com", "www.www.h.example.org", "h.example.or", "hexample.org", "h.example.org:8081", "u@h.example.org"]
    stems = [("a", "b"), ("a", "a"), ("x" * r.choice((30, 38, 40, 45, 70)), "end"), ("dts", "core"), ("t" * r.choice((120, 240, 300)), "z"),
             ("2023", "2023"), ("http", "x"), ("\u00e9t\u00e9", "b"), ("e\u0301te\u0301", "b"), ("stra\u00dfe", "b"), ("strasse", "b"), ("t1", "1"), ("t01", "01")]
    exts = [".xsd", ".xml", ".xsd.xml", ".xml.xsd", "_xsd.xsd", ".xsd?v=1.xsd", ".xsd?v=2.xsd", "?f=.xsd", ".XSD.xsd", ".xsd.xsd", ".x.xml",
            "/.xsd", "?.xsd", ".xsd?.xsd"]
    out, keys = [], set()

    def add(u):
        k = net.key(u)
        if k in keys or u in out:
            return
        if not u.endswith((".xsd", ".xml")):       # brel tells a file's kind by the end of its URI
            return
        keys.add(k)
        out.append(u)
    add("http://h.example.org/a/b.xsd")
    tries = 0
    while len(out) < n and tries < 50 * n:
        tries += 1
        k = r.random()
        if k < 0.35 or wide and k < 0.05:
            a, b = r.choice(stems)
            add("%s://%s/%s%s%s%s" % (r.choice(("http", "https")), r.choice(hosts), a, r.choice(SEPS), b, r.choice(exts)))
        elif wide:
            add("http://h.example.org/w/%s%d.xsd" % (r.choice(("s", "s-", "s_", "S", "long" * 12)), r.randrange(10 * n)))
        else:
            # one edit away from an earlier one
            u = r.choice(out)
            scheme, rest = u.split("://", 1)
            host, path = rest.split("/", 1)
            how = r.randrange(10)
            if how == 0:
                scheme = "https" if scheme == "http" else "http"
            elif how == 1:
                host = r.choice(hosts)
            elif how == 2 and path:
                i = r.randrange(len(path))
                if path[i] in "/_.:-?&=":
                    path = path[:i] + r.choice("/_.:-?&=") + path[i + 1:]
            elif how == 3:
                path = path.swapcase() if r.random() < 0.3 else path.replace("x", "X", 1)
            elif how == 4:
                path = path + r.choice(("?q.xsd", "?a.xsd", "?a=1.xsd", "/.xsd", ".xsd", ".xml", "_.xsd", "x.xsd", "_xsd.xsd"))
            elif how == 5:
                path = r.choice(("a/", "www.", "http/", "http://x/", "_")) + path
            elif how == 6:
                path = path.replace(".xsd", r.choice(exts))
            elif how == 7:
                path = path[: max(1, len(path) // 2)] + r.choice("abcABC123_-.") + path[max(1, len(path) // 2):]
            elif how == 8:
                for x in r.sample((("\u00e9", "e\u0301"), ("e", "\u00e9"), ("e", "e\u0301"), ("fi", "\ufb01"), ("a", "\uff41"), ("A", "\u0391"), ("\u00df", "ss"), ("ss", "\u00df"), ("\u00e9", "\u00c9")), 9):
                    if x[0] in path:
                        path = path.replace(*x)
                        break
            elif how == 9:
                i = r.randrange(len(path) + 1)
                path = path[:i] + r.choice("01+") + path[i:]
            if not path or ".." in path or "/./" in path:
                continue
            add("%s://%s/%s" % (scheme, host, path))
    return out


def make(spec):
    r = random.Random("near %s" % spec["seed"])
    u = Near()
    uris = family(r, spec["n"], spec.get("wide"))
    uris = [x for x in uris if "/./" not in x]
    r.shuffle(uris)
    tag = "n%s" % spec["seed"]
    imports = {}
    for i, uri in enumerate(uris):
        imports[i] = [j for j in ([r.randrange(len(uris))] if r.random() < 0.3 else []) if j != i]
    for i, uri in enumerate(uris):
        ns = "urn:near:%d" % i
        body = ('<?xml version="1.0"?><xs:schema targetNamespace="%s" xmlns:xs="http://www.w3.org/2001/XMLSchema" '
                'xmlns:xbrli="http://www.xbrl.org/2003/instance">%s<xs:element id="e%d" name="El%d" type="xbrli:stringItemType" '
                'substitutionGroup="xbrli:item" xbrli:periodType="instant"/></xs:schema>') % (
                    ns, "".join('<xs:import namespace="urn:near:%d" schemaLocation=%s/>' % (j, quoteattr(uris[j])) for j in imports[i]), i, i)
        u.servers[uri] = body.encode("utf-8")
        u.uri_of["{%s}El%d" % (ns, i)] = uri
    for e in range(spec["entries"]):
        k = len(uris) if spec.get("wide") and e == 0 else r.randint(1, max(2, min(len(uris), 8)))
        chosen = r.sample(range(len(uris)), min(k, len(uris)))
        seen, todo = set(), list(chosen)
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += imports[x]
        path = "/sim/docs/%s/entry%d.xml" % (tag, e) if r.random() < 0.6 else "http://f.example.org/%s/entry%d.xml" % (tag, e)
        used = chosen if len(chosen) < 30 else chosen[:30]
        xml = ('<?xml version="1.0" encoding="UTF-8"?><xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" '
               'xmlns:xlink="http://www.w3.org/1999/xlink"%s>%s<xbrli:context id="c"><xbrli:entity><xbrli:identifier scheme="urn:s">1</xbrli:identifier>'
               '</xbrli:entity><xbrli:period><xbrli:instant>2023-12-31</xbrli:instant></xbrli:period></xbrli:context>%s</xbrli:xbrl>') % (
                   "".join(' xmlns:n%d="urn:near:%d"' % (i, i) for i in used),
                   "".join('<link:schemaRef xlink:type="simple" xlink:href=%s/>' % quoteattr(uris[i]) for i in chosen),
                   "".join('<n%d:El%d contextRef="c">v%d</n%d:El%d>' % (i, i, i, i, i) for i in used))
        (u.servers if path.startswith("http") else u.docs)[path] = xml.encode("utf-8")
        u.entries.append(path)
        u.elements_of[path] = ["{urn:near:%d}El%d" % (i, i) for i in seen]
        u.facts_of[path] = [("{urn:near:%d}El%d" % (i, i), "v%d" % i) for i in used]
    return u

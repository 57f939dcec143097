"""Documents that lead back to themselves: cycles of references, arcs, continuations, redirects, types.

make(seed) -> a universe (servers, docs, entries, redirects). Whatever brel thinks of them, opening ends.
"""
import random

X = ('xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" '
     'xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:e="urn:e" '
     'xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:iso4217="http://www.xbrl.org/2003/iso4217" '
     'xmlns:xs="http://www.w3.org/2001/XMLSchema"')
CTX = ('<xbrli:context id="c"><xbrli:entity><xbrli:identifier scheme="urn:s">1</xbrli:identifier></xbrli:entity>'
       '<xbrli:period><xbrli:instant>2023-12-31</xbrli:instant></xbrli:period></xbrli:context>'
       '<xbrli:unit id="u"><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unit>')
KINDS = ("continuation", "arcs", "imports", "substitution", "redirect", "entities", "deep", "catalog", "long", "resources")
ARCROLES = {"presentation": ("http://www.xbrl.org/2003/arcrole/parent-child",), "calculation": ("http://www.xbrl.org/2003/arcrole/summation-item",),
            "definition": tuple("http://xbrl.org/int/dim/arcrole/" + x for x in ("domain-member", "dimension-domain", "hypercube-dimension", "all"))
            + ("http://www.xbrl.org/2003/arcrole/general-special",)}


class Odd:
    def __init__(self):
        self.servers, self.docs, self.entries, self.redirects = {}, {}, [], {}


def names(n):
    return ["E%d" % i for i in range(n)]


def schema(els, head="", kind="stringItemType"):
    return ('<?xml version="1.0"?><xs:schema targetNamespace="urn:e" %s>%s%s</xs:schema>' % (X, head, "".join(
        '<xs:element id="e_%s" name="%s" type="xbrli:%s" substitutionGroup="%s" abstract="%s" xbrli:periodType="instant"/>' % (
            n, n, kind, sg, "true" if sg != "xbrli:item" else "false") for n, sg in els))).encode()


def instance(refs, facts="", href="s.xsd"):
    return ('<?xml version="1.0"?><xbrli:xbrl %s><link:schemaRef xlink:type="simple" xlink:href="%s"/>%s%s%s</xbrli:xbrl>' % (
        X, href, refs, CTX, facts)).encode()


def lbref(href):
    return ('<link:linkbaseRef xlink:type="simple" xlink:href="%s" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>' % href)


def appinfo(x):
    return "<xs:annotation><xs:appinfo>%s</xs:appinfo></xs:annotation>" % x


def make(spec):
    r = random.Random("odd %s" % spec["seed"])
    o = Odd()
    d = "/sim/docs/odd/"
    kind = spec.get("kind") or r.choice(KINDS)
    o.kind = kind
    n = r.choice((1, 2, 3, 4, 6))
    item = [(x, "xbrli:item") for x in names(n)]
    facts = "".join('<e:%s contextRef="c">text</e:%s>' % (x, x) for x in names(n))
    if kind == "continuation":
        m = r.choice((1, 2, 3, 5))
        ids = ["k%d" % i for i in range(m)]
        body = ""
        for i, x in enumerate(names(n)):
            inner = ""
            if r.random() < 0.2:
                inner = '<ix:continuation id="%s" continuedAt="%s">in</ix:continuation>' % (r.choice(ids), r.choice(ids))
            body += '<p><ix:nonNumeric id="f%d" name="e:%s" contextRef="c" continuedAt="%s">x%s</ix:nonNumeric></p>' % (i, x, r.choice(ids), inner)
        if r.random() < 0.4:
            body += '<p><ix:footnote id="n" footnoteRole="http://www.xbrl.org/2003/role/footnote" continuedAt="%s" xml:lang="en">note</ix:footnote></p>' % r.choice(ids)
        for k in ids:
            to = r.choice(ids + ["nowhere"]) if r.random() < 0.9 else None
            body += '<p><ix:continuation id="%s"%s>y</ix:continuation></p>' % (k, ' continuedAt="%s"' % to if to else "")
        o.docs[d + "i.xhtml"] = ('<?xml version="1.0"?><html xmlns="http://www.w3.org/1999/xhtml" %s><body><ix:header><ix:references>'
                                 '<link:schemaRef xlink:type="simple" xlink:href="s.xsd"/></ix:references><ix:resources>%s</ix:resources></ix:header>'
                                 '%s</body></html>' % (X, CTX, body)).encode()
        o.docs[d + "s.xsd"] = schema(item)
        o.entries = [d + "i.xhtml"]
    elif kind in ("arcs", "resources"):
        lk = r.choice(tuple(ARCROLES))
        role = "http://www.xbrl.org/2003/role/link"
        links = ""
        for _ in range(r.choice((1, 2))):
            locs = "".join('<link:loc xlink:type="locator" xlink:href="s.xsd#e_%s" xlink:label="%s"/>' % (x, x) for x in names(n))
            arcs = ""
            if kind == "arcs":
                for j in range(r.randint(n, 3 * n)):
                    a, b = r.choice(names(n)), r.choice(names(n))
                    extra = 'weight="1"' if lk == "calculation" else ""
                    if r.random() < 0.15:
                        extra += ' use="prohibited" priority="1"'
                    arcs += '<link:%sArc xlink:type="arc" xlink:arcrole="%s" xlink:from="%s" xlink:to="%s" order="%d" %s/>' % (
                        lk, r.choice(ARCROLES[lk]), a, b, r.randint(1, 3), extra)
            else:
                lk = r.choice(("label", "reference"))
                ar = "http://www.xbrl.org/2003/arcrole/concept-" + lk
                for j in range(r.randint(1, 4)):
                    # resources with shared labels, and arcs from resources to resources and to locators
                    locs += '<link:%s xlink:type="resource" xlink:label="%s" xlink:role="http://www.xbrl.org/2003/role/label" xml:lang="en">t</link:%s>' % (
                        lk, r.choice(("l0", "l1", "E0")), lk)
                for j in range(r.randint(1, 6)):
                    arcs += '<link:%sArc xlink:type="arc" xlink:arcrole="%s" xlink:from="%s" xlink:to="%s" order="1"/>' % (
                        lk, ar, r.choice(names(n) + ["l0"]), r.choice(names(n) + ["l0", "l1"]))
            links += '<link:%sLink xlink:type="extended" xlink:role="%s">%s%s</link:%sLink>' % (lk, role, locs, arcs, lk)
        o.docs[d + "p.xml"] = ('<?xml version="1.0"?><link:linkbase %s>%s</link:linkbase>' % (X, links)).encode()
        o.docs[d + "s.xsd"] = schema(item, appinfo(lbref("p.xml")))
        o.docs[d + "i.xml"] = instance("", facts)
        o.entries = [d + "i.xml"]
    elif kind == "imports":
        remote = r.random() < 0.5
        base = "http://odd.example.org/a/b/" if remote else d
        put = o.servers if remote else o.docs
        for i in range(n):
            head = ""
            for j in range(r.randint(1, 2 * n)):
                to = "s%d.xsd" % r.randrange(n)
                to = r.choice(("%s", "./%s", "../b/%s" if remote else "../odd/%s", "././%s", "%s#e_E0", "%s#", "../../a/b/%s" if remote else "../../docs/odd/%s",
                               base + "%s", "x/../%s")) % to
                head += r.choice(('<xs:include schemaLocation="%s"/>', '<xs:import namespace="urn:e" schemaLocation="%s"/>',
                                  appinfo('<link:linkbaseRef xlink:type="simple" xlink:href="%s"/>'))) % to
            put[base + "s%d.xsd" % i] = schema(item if i == 0 else [], head)
        inst = instance(r.choice(("", '<link:schemaRef xlink:type="simple" xlink:href="i.xml"/>', lbref("i.xml"))), facts, base + "s0.xsd" if remote else "s0.xsd")
        o.docs[d + "i.xml"] = inst
        o.entries = [d + "i.xml"]
    elif kind == "substitution":
        pool = ["e:" + x for x in names(n)] + ["xbrli:item"]
        o.docs[d + "s.xsd"] = schema([(x, r.choice(pool)) for x in names(n)])
        o.docs[d + "i.xml"] = instance("", facts)
        o.entries = [d + "i.xml"]
    elif kind == "redirect":
        m = r.choice((1, 2, 3, 5, 40))
        us = ["http://odd%d.example.org/r%d.xsd" % (r.randrange(3), i) for i in range(m)]
        for i, u in enumerate(us):
            o.redirects[u] = us[(i + 1) % m] if r.random() < 0.8 else r.choice(us)
        if r.random() < 0.3:
            o.redirects[us[-1]] = r.choice(("http://", "", "file:///sim/docs/odd/i.xml", "http://nowhere.example.org/x", us[0] + "?x=1", "//", "ftp://x/y"))
        o.docs[d + "i.xml"] = instance("", facts, us[0])
        o.entries = [d + "i.xml", us[-1]]
    elif kind == "entities":
        depth, width = r.choice(((2, 2), (9, 20), (30, 2))), None
        depth, width = depth
        ents = "".join('<!ENTITY a%d "%s">' % (i, ("&a%d;" % (i - 1) if i else "aaaaaaaaaaaaaaaa") * width) for i in range(depth))
        if r.random() < 0.3:
            ents = '<!ENTITY a0 "&a1;"><!ENTITY a1 "&a0;">'
        elif r.random() < 0.4:
            ents = '<!ENTITY a0 SYSTEM "%s">' % r.choice(("i.xml", "/dev/null", "http://nowhere.example.org/x.dtd", "s.xsd")) + ents.replace("a0", "b0")
        o.docs[d + "i.xml"] = b'<?xml version="1.0"?><!DOCTYPE x [' + ents.encode() + b"]>" + instance("", '<e:E0 contextRef="c">&a%d;</e:E0>' % r.randrange(depth)).split(b"?>", 1)[1]
        o.docs[d + "s.xsd"] = schema(item)
        o.entries = [d + "i.xml"]
    elif kind == "deep":
        k = r.choice((50, 250, 1000, 5000))
        tag = r.choice(("x", "e:E0", "xbrli:xbrl", "link:footnoteLink"))
        o.docs[d + "i.xml"] = instance("", "<%s>" % tag * k + "</%s>" % tag * k)
        o.docs[d + "s.xsd"] = schema(item)
        o.entries = [d + "i.xml"]
    elif kind == "catalog":
        us = ["http://odd%d.example.org/t/" % i for i in range(3)]
        rows = "".join('<rewriteURI uriStartString="%s" rewritePrefix="%s"/>' % (r.choice(us + ["http://", "http"]), r.choice(
            us + ["../", "", ".", "../odd/", "../META-INF/", "http://", "/sim/docs/odd/", "../../"])) for _ in range(r.randint(1, 4)))
        o.docs[d + "META-INF/catalog.xml"] = ('<?xml version="1.0"?><catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog">%s</catalog>' % rows).encode()
        o.docs[d + "i.xml"] = instance("", facts, us[0] + "s.xsd")
        o.docs[d + "s.xsd"] = schema(item, '<xs:include schemaLocation="%s"/>' % (us[1] + "s.xsd"))
        for u in us:
            if r.random() < 0.7:
                o.servers[u + "s.xsd"] = schema(item, '<xs:include schemaLocation="%s"/>' % (r.choice(us) + "s.xsd"))
        o.entries = ["/sim/docs/odd", d + "i.xml"]
    else:
        k = r.choice((50, 150, 250))
        remote = r.random() < 0.3
        base = "http://odd.example.org/l/" if remote else d
        put = o.servers if remote else o.docs
        for i in range(k):
            put[base + "s%d.xsd" % i] = schema(item if not i else [], '<xs:include schemaLocation="s%d.xsd"/>' % ((i + 1) % k))
        o.docs[d + "i.xml"] = instance("", facts, base + "s0.xsd" if remote else "s0.xsd")
        o.entries = [d + "i.xml"]
    return o

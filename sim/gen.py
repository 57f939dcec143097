"""Generator of filings with known content.

make(seed, **knobs) builds a Universe: the files on the servers, the user's local files, the
paths to open and, for each of them, the truth: which files belong to the taxonomy set and
which facts, report elements, labels, relationships and components they declare.  The truth
is computed while generating and shares no code with brel.
"""
import io
import random
import re
import zipfile
import posixpath
from decimal import Decimal
from xml.etree import ElementTree
from urllib.parse import urljoin
from xml.sax.saxutils import escape, quoteattr

STD = "http://www.xbrl.org/2003/role/link"
LABEL = "http://www.xbrl.org/2003/role/label"
LABEL_ROLES = (LABEL, "http://www.xbrl.org/2003/role/terseLabel", "http://www.xbrl.org/2003/role/documentation",
               "http://www.xbrl.org/2003/role/totalLabel")
AR = "http://www.xbrl.org/2003/arcrole/"
DAR = "http://xbrl.org/int/dim/arcrole/"
NS = {
    "xbrli": "http://www.xbrl.org/2003/instance", "link": "http://www.xbrl.org/2003/linkbase",
    "xlink": "http://www.w3.org/1999/xlink", "xsi": "http://www.w3.org/2001/XMLSchema-instance",
    "xbrldt": "http://xbrl.org/2005/xbrldt", "xbrldi": "http://xbrl.org/2006/xbrldi",
    "iso4217": "http://www.xbrl.org/2003/iso4217", "xs": "http://www.w3.org/2001/XMLSchema",
    "ref": "http://www.xbrl.org/2006/ref",
}
KNOBS = dict(kind="remote", taxes=2, els=4, facts=6, lbs=7, shape="chain", notes=0, dims=0, inline=0,
             hosts=1, sec=0, base=0, catalog=0, relrefs=1, instances=1, quirks=0, split=0, names=0, bad=0, cont=0,
             held=0, deep=0, pad=0, hints=0, clash=0, zip=0, loose=0, extra=0, style=0)

LANGS = ("en", "en-US", "de", "fr", "de-CH")
MONTHS = ("January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December")
# versions of the transformation registry: the name for a dash, new names or not
REGISTRIES = {"2010-04-20": ("numdash", 0), "2011-07-31": ("zerodash", 0), "2015-02-26": ("zerodash", 0), "2020-02-12": ("fixed-zero", 1), "2022-02-16": ("fixed-zero", 1)}
WORDS = ("Assets", "Cash", "Revenue", "Costs", "Equity", "Debt", "Tax", "Profit", "Stock", "Goodwill", "Lease", "Fee")


class Truth:
    def __init__(self, faulty=False):
        self.faulty = faulty    # brel reports errors
        self.facts = []         # (concept, value, period, entity, unit, dims, id, decimals, precision)
        self.elements = {}      # clark -> (type, period, balance, nillable, datatype)
        self.labels = []        # (clark, role, lang, text)
        self.edges = {}         # (network type, physical, link role) -> list of edges
        self.roots = {}         # (network type, physical, link role) -> set of clark
        self.components = []    # (uri, definition, pre?, cal?, def?)
        self.files = set()      # every file of the taxonomy set: remote URI or local path
        self.languages = set()

    def absorb(self, t):
        self.facts += t.facts
        self.elements.update(t.elements)
        self.labels += t.labels
        self.faulty = self.faulty or t.faulty
        for k, v in t.edges.items():
            self.edges.setdefault(k, []).extend(v)
        for k, v in t.roots.items():
            self.roots.setdefault(k, set()).update(v)
        self.components += [c for c in t.components if c not in self.components]
        self.languages |= t.languages


class File:
    def __init__(self, uri, body=None):
        self.uri = uri          # absolute: http(s) URI or /sim/docs/... path
        self.refs = []          # absolute uris
        self.body = body
        self.truth = Truth()

    @property
    def remote(self):
        return self.uri.startswith("http")


class Universe:
    def __init__(self, seed, knobs):
        self.seed = seed
        self.knobs = knobs
        self.servers = {}       # uri -> bytes
        self.docs = {}          # virtual path -> bytes
        self.entries = []       # what to pass to Filing.open
        self.truth = {}         # entry -> Truth
        self.files = {}         # uri -> File
        self.rewrites = []      # (start string, local prefix) of a catalog
        self.instances = []

    def remote_of(self, entry):
        return sorted(f for f in self.truth[entry].files if f.startswith("http"))


def nsdecl(*prefixes):
    return "".join(' xmlns:%s="%s"' % (p, NS[p]) for p in prefixes)


def plain(xml):
    """the text of a piece of XML"""
    return re.sub("<[^>]*>", "", re.sub("<ix:exclude>.*?</ix:exclude>", "", xml)).replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")


def fragment(xml):
    """a piece of XHTML as a value, in which it does not matter how the markup is written"""
    def canon(e):
        return (e.tag.split("}")[-1], tuple(sorted(e.attrib.items())), e.text or "", e.tail or "", tuple(map(canon, e)))
    return canon(ElementTree.fromstring("<v>%s</v>" % xml))


def clark(ns, name):
    return "{%s}%s" % (ns, name)


class Builder:
    def __init__(self, seed, knobs):
        self.k = dict(KNOBS)
        self.k.update(knobs)
        self.r = random.Random("gen %s" % seed)
        self.u = Universe(seed, self.k)
        self.seed = seed
        self.catalog = []

    # ---- where files live ------------------------------------------------------------------
    def layout(self):
        k, r = self.k, self.r
        tag = "u%s" % (self.seed if isinstance(self.seed, int) else abs(hash(str(self.seed))) % 10000)
        hosts = ["xbrl.example%d.org" % i for i in range(k["hosts"])]
        if k["sec"]:
            hosts = ["www.sec.gov"] + hosts
        self.scheme = r.choice(("http", "https"))
        sub = r.choice(("2023", "2024", "2024/elts", "a.b", "US-GAAP/2024", "x%20y/~v"))
        if r.random() < 0.15:
            hosts = [h + ":8080" if h != "www.sec.gov" and r.random() < 0.5 else h for h in hosts]
        self.tax_base = []
        self.folder = None
        for i in range(k["taxes"] + 1):
            host = hosts[(i if i else 0) % len(hosts)]
            sch = self.scheme if r.random() < 0.7 else r.choice(("http", "https"))
            self.tax_base.append("%s://%s/%s/%s/" % (sch, host, tag, sub if r.random() < 0.5 else "t%d" % i))
        name = {0: "f%s" % tag, 1: "f %s" % tag, 2: "f#%s" % tag, 3: "f\u00e9%%20%s" % tag, 4: "f?%s;x" % tag}[k["names"]]
        if k["kind"] == "remote":
            self.ext_dir = self.tax_base[0]
        else:
            self.ext_dir = "/sim/docs/%s/" % name
            self.folder = "/sim/docs/" + name
        if k["kind"] == "local-all":
            # everything on the user's disk, in nested folders with equal names where possible
            for i in range(1, k["taxes"] + 1):
                self.tax_base[i] = self.ext_dir + r.choice(("tax/", "tax/t%d/" % i, "", "lib/t%d/x/" % i))
        if k["catalog"]:
            for i in range(1, k["taxes"] + 1):
                if i == k["taxes"] and k["taxes"] > 1 and r.random() < 0.4 and not any(self.tax_base[i].startswith(a) for a, _, _ in self.catalog):
                    continue        # the last one stays remote
                start = self.tax_base[i]
                local = self.ext_dir + "mapped/m%d/" % (i % 2)
                local = next((b for a, b, _ in self.catalog if a == start), local)
                self.catalog.append((start, local, i))
        self.tag = tag

    def mapped(self, i):
        return any(j == i for _, _, j in self.catalog)

    def home_of(self, i):
        """directory of the files of taxonomy i"""
        if i == 0:
            return self.ext_dir
        for start, local, j in self.catalog:
            if j == i:
                return local
        return self.tax_base[i]

    def ref(self, frm, to):
        """how file frm spells a reference to file to"""
        r, rel = self.r, self.k["relrefs"]
        if self.catalog and not to.startswith("http"):
            for start, local, j in self.catalog:
                if to.startswith(local) and not (frm.startswith(local) and r.random() < 0.5):
                    return start + to[len(local):]
        if to.startswith("http"):
            fo, to_o = frm.split("/")[:3], to.split("/")[:3]
            if not frm.startswith("http") or fo != to_o or not rel or r.random() < 0.3:
                return to
            base, target = frm[len("/".join(fo)):], to[len("/".join(to_o)):]
            spell = r.random()
            if spell < 0.1:
                return target           # from the root of the server
            if spell < 0.15:
                return to[len(fo[0]):]  # //host/path
        else:
            base, target = frm, to
        p = posixpath.relpath(target, posixpath.dirname(base))
        spell = r.random()
        if spell < 0.15:
            p = "./" + p
        elif spell < 0.3 and "/" in posixpath.dirname(base).strip("/") and not any(
                c in posixpath.basename(posixpath.dirname(base)) for c in "#?%& "):
            p = "../" + posixpath.basename(posixpath.dirname(base)) + "/" + p
        if frm.startswith("http"):
            assert urljoin(frm, p) == to, (frm, p, to)
        return p

    # ---- taxonomy --------------------------------------------------------------------------
    def build(self):
        k, r, u = self.k, self.r, self.u
        self.layout()
        n = k["taxes"] + 1
        self.names = []
        self.ns = ["http://ns.example.com/%s/t%d" % (self.tag, i) for i in range(n)]
        self.pf = ["p%d" % i if i else "ext" for i in range(n)]
        ext = r.choice((".xsd", ".xsd", ".xml")) if k["quirks"] else ".xsd"
        same = k["kind"] == "local-all" and r.random() < 0.6
        upper = r.random() < 0.3
        self.schema = []
        for i in range(n):
            base = self.home_of(i)
            fname = ("core" if same else "%s-Core_V2" % self.pf[i] if upper else "%s-core" % self.pf[i]) + ext
            uri = base + fname
            if any(f.uri == uri for f in self.schema):
                uri = base + self.pf[i] + "-" + fname
            self.schema.append(File(uri))
        # reference graph between schemas
        self.imports = {i: set() for i in range(n)}
        shape = k["shape"]
        for i in range(n - 1):
            if shape == "chain":
                self.imports[i].add(i + 1)
            elif shape == "star":
                self.imports[0].add(i + 1)
            elif shape == "diamond":
                self.imports[i].add(i + 1)
                if i + 2 < n:
                    self.imports[i].add(i + 2)
            else:   # cycle / dense
                self.imports[i].add(i + 1)
                self.imports[i + 1].add(r.randrange(0, i + 1))
                if r.random() < 0.4:
                    self.imports[i].add(r.randrange(n))
        if shape == "cycle" and r.random() < 0.5:
            self.imports[0].add(0)  # a file may even refer to itself
        for i in range(n):      # a remote file cannot refer to a local one, unless through the catalog
            if self.schema[i].remote:
                self.imports[i] = {j for j in self.imports[i] if self.schema[j].remote or self.mapped(j)}
        self.els = []
        for i in range(n):
            self.els.append(self.elements(i))
        self.linkbases = {i: [] for i in range(n)}
        self.held = []
        self.roles = {i: [] for i in range(n)}
        for i in range(n):
            self.make_linkbases(i)
        self.domains, self.bodies = {}, {}
        for i in range(n):
            self.write_schema(i)
        for i in range(n):
            self.schema[i].body = self.encode(self.bodies[i].replace("<!--domains-->", "\n".join(map(self.domain, self.domains.get(i, ())))))
        if k["base"]:
            self.base_files()
        self.make_instances()
        if self.catalog:
            self.write_catalog()
        for f in u.files.values():
            (u.servers if f.remote else u.docs)[f.uri] = f.body
        self.finish()
        return u

    def add(self, f):
        assert f.uri not in self.u.files, f.uri
        self.u.files[f.uri] = f
        return f

    def elements(self, i):
        """report elements of schema i: dicts"""
        k, r = self.k, self.r
        out = []

        def el(name, kind, **a):
            eid = "e%d" % len(out) if k["clash"] & 1 else "%s_%s" % (self.pf[i], name)
            e = dict(name=name, kind=kind, ns=self.ns[i], id=eid, key="%s_%s" % (self.pf[i], name), file=i, **a)
            e["clark"] = clark(self.ns[i], name)
            out.append(e)
            return e
        words = list(WORDS)
        r.shuffle(words)
        for j in range(k["els"]):
            t = r.choice(("xbrli:monetaryItemType", "xbrli:monetaryItemType", "xbrli:stringItemType",
                          "xbrli:integerItemType", "xbrli:booleanItemType", "xbrli:decimalItemType"))
            el("%s%d" % (words[j % len(words)], j), "Concept", type=t,
               period=r.choice(("instant", "duration")),
               balance=r.choice((None, "credit", "debit")) if "monetary" in t else None,
               nillable=r.choice((None, "true", "false")))
        el("Statement%dAbstract" % i, "Abstract")
        if k["dims"]:
            el("Main%dLineItems" % i, "LineItems")
            el("Main%dTable" % i, "Hypercube")
            for d in range(1 + (k["dims"] > 1)):
                el("D%d%dAxis" % (i, d), "Dimension")
                el("D%d%dDomain" % (i, d), "Member")
                for m in range(2):
                    el("M%d%d%dMember" % (i, d, m), "Member")
            if k["dims"] > 1:
                el("T%dAxis" % i, "Dimension", typed="%s_T%dDom" % (self.pf[i], i))
        return out

    def deep_chain(self, i):
        """schemas that hold nothing but a reference to the next one and one element; returns the first"""
        k, r = self.k, self.r
        base = self.home_of(i)
        uris = [base + "deep/" + r.choice(("", "d%d/" % (j % 3))) + "s%d.xsd" % j for j in range(k["deep"])]
        for j, uri in enumerate(uris):
            f = File(uri)
            ns = "http://ns.example.com/%s/deep%d" % (self.tag, j)
            nxt = ""
            if j + 1 < len(uris):
                f.refs.append(uris[j + 1])
                nxt = '<xs:%s schemaLocation="%s"/>' % (r.choice(('import namespace="urn:x"', "include", "redefine")), self.ref(uri, uris[j + 1]))
            f.truth.elements[clark(ns, "Deep%d" % j)] = ("Concept", "instant", None, False, "xbrli:stringItemType")
            f.body = ('<?xml version="1.0"?><xs:schema targetNamespace="%s"%s>%s<xs:element id="deep_%d" name="Deep%d" type="xbrli:stringItemType" '
                      'substitutionGroup="xbrli:item" xbrli:periodType="instant"/></xs:schema>' % (ns, nsdecl("xs", "xbrli"), nxt, j, j)).encode()
            self.add(f)
        return uris[0]

    def satellites(self, i):
        """small schemas at places that are easy to mistake for each other; returns those to import"""
        flags, r = self.k["extra"], random.Random("satellites %s" % self.seed)
        base = self.home_of(i)
        out = []

        def small(uri, name, refs=()):
            f = File(uri)
            ns = "http://ns.example.com/%s/sat" % self.tag
            for _, to in refs:
                f.refs.append(to)
            el = ""
            if name:
                ns += "/" + name
                f.truth.elements[clark(ns, name)] = ("Concept", "instant", None, False, "xbrli:stringItemType")
                el = ('<xs:element id="sat_%s" name="%s" type="xbrli:stringItemType" substitutionGroup="xbrli:item" '
                      'xbrli:periodType="instant"/>') % (name, name)
            f.body = ('<?xml version="1.0"?><xs:schema targetNamespace="%s"%s>%s%s</xs:schema>' % (
                ns, nsdecl("xs", "xbrli"), "".join('<xs:import namespace="urn:sat" schemaLocation="%s"/>' % how for how, _ in refs), el)).encode()
            self.add(f)
            return uri
        if flags & 2:
            # the same bytes at two places, which refer to files that are different
            for n, d in enumerate(r.sample(("tw/a/", "tw/b/", "tw/", "tw/a/x/"), 2)):
                small(base + d + "leaf.xsd", "Twin%d" % n)
                out.append(small(base + d + "twin.xsd", None, [("leaf.xsd", base + d + "leaf.xsd")]))
        if flags & 4:
            if base.startswith("http"):
                for n, q in enumerate(r.sample(("?v=1.xsd", "?v=2.xsd", "?part=a&v=1.xsd", "", "?.xsd"), 3)):
                    out.append(small(base + "part.xsd" + q, "Part%d" % n))
            else:
                for n, q in enumerate(r.sample(("part.xsd", "Part.xsd", "part.XSD.xsd", "part-.xsd", "part..xsd", "x.part.xsd"), 3)):
                    out.append(small(base + q, "Part%d" % n))
        if flags & 8:
            # one name, several folders (and servers)
            places = [base + "n1/", base + "n2/", base + "n1/n1/"]
            if base.startswith("http") and not self.catalog:
                places += ["https://mirror.example.org/%s/" % self.tag, "http://mirror.example.org/%s/n1/" % self.tag]
            for n, d in enumerate(r.sample(places, 2 + r.randrange(2))):
                out.append(small(d + "same.xsd", "Same%d" % n))
        return out

    def schema_head(self, i, used, pf=None):
        pf = pf or self.prefixes()
        ps = sorted(set(used) | {i})
        return "".join(' xmlns:%s="%s"' % (pf[j], self.ns[j]) for j in ps)

    def prefixes(self):
        """the prefixes a file uses for the namespaces"""
        pf = list(self.pf)
        if self.k["clash"] & 2:
            self.r.shuffle(pf)
        return pf

    def write_schema(self, i):
        k, r = self.k, self.r
        f = self.schema[i]
        t = f.truth
        lines = []
        for j in sorted(self.imports[i], key=lambda _: r.random()):
            f.refs.append(self.schema[j].uri)
            lines.append('<xs:import namespace="%s" schemaLocation="%s"/>' % (self.ns[j], self.ref(f.uri, self.schema[j].uri)))
        ann = []
        again = [x for j in self.imports[i] if j < i for x in self.roles[j]] if k["clash"] & 8 else []
        for n, (role, text, used) in enumerate(self.roles[i] + again):
            ann.append('<link:roleType roleURI="%s" id="%s">%s%s</link:roleType>' % (
                role, "r" + role.rsplit("/", 1)[1],
                "<link:definition>%s</link:definition>" % escape(text) if text else "",
                "".join("<link:usedOn>link:%sLink</link:usedOn>" % x for x in used)))
            t.components.append((role, text, "presentation" in used, "calculation" in used, "definition" in used))
        for lb in self.linkbases[i]:
            if k["held"] and i == 0 and r.random() < 0.5:
                self.held.append(lb)        # only the instances refer to it
                continue
            f.refs.append(lb.uri)
            ann.append('<link:linkbaseRef xlink:type="simple" xlink:href="%s" '
                       'xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>' % self.ref(f.uri, lb.uri))
        if k["deep"] and i == len(self.schema) - 1:
            first = self.deep_chain(i)
            f.refs.append(first)
            lines.append('<xs:import namespace="urn:deep" schemaLocation="%s"/>' % self.ref(f.uri, first))
        if k["extra"] and i == len(self.schema) - 1:
            for x in self.satellites(i):
                f.refs.append(x)
                lines.append('<xs:import namespace="urn:sat" schemaLocation="%s"/>' % escape(self.ref(f.uri, x)))
        if k["base"]:
            for b in self.base_uris():
                if r.random() < 0.7 or i == 0:
                    f.refs.append(b)
                    lines.append('<xs:import namespace="http://www.xbrl.org/2003/instance" schemaLocation="%s"/>' % b)
        for e in self.els[i]:
            kind = e["kind"]
            at = {"id": e["id"], "name": e["name"]}
            data = None
            if kind == "Concept":
                at.update(type=e["type"], substitutionGroup="xbrli:item")
                at["xbrli:periodType"] = e["period"]
                if e["balance"]:
                    at["xbrli:balance"] = e["balance"]
                if e["nillable"]:
                    at["nillable"] = e["nillable"]
                data = (kind, e["period"], e["balance"], e["nillable"] == "true", e["type"])
            else:
                at.update(abstract="true", type="xbrli:stringItemType", substitutionGroup="xbrli:item")
                at["xbrli:periodType"] = "duration"
                if kind == "Hypercube":
                    at["substitutionGroup"] = "xbrldt:hypercubeItem"
                elif kind == "Dimension":
                    at["substitutionGroup"] = "xbrldt:dimensionItem"
                    if e.get("typed"):
                        others = sorted(j for j in self.imports[i] if j != i)
                        if k["clash"] & 4 and others:
                            j = r.choice(others)
                            self.domains.setdefault(j, []).append(e["typed"])
                            at["xbrldt:typedDomainRef"] = self.ref(f.uri, self.schema[j].uri) + "#" + e["typed"]
                        else:
                            self.domains.setdefault(i, []).append(e["typed"])
                            at["xbrldt:typedDomainRef"] = "#" + e["typed"]
                elif kind == "Member":
                    at["type"] = "dtr:domainItemType"
                data = (kind, None, None, None, None)
            t.elements[e["clark"]] = data
            lines.append("<xs:element %s/>" % " ".join("%s=%s" % (a, quoteattr(v)) for a, v in at.items()))
            if e.get("typed") and not k["clash"] & 4:
                lines.append(self.domain(e["typed"]))
        if k["clash"] & 4:
            lines.append("<!--domains-->")
        if k["pad"] and (i == len(self.schema) - 1 or r.random() < 0.3):
            lines.append("<!-- %s -->" % ("padding " * (k["pad"] * 128)))
        if k["quirks"]:
            lines.append("<!-- see also  href in a comment -->")
            if r.random() < 0.3:
                lines.append('<!-- <xs:import namespace="urn:old" schemaLocation="old/gone.xsd"/> <link:x xlink:href="gone.xml"/> -->')
        body = ('<?xml version="1.0" encoding="UTF-8"?>\n<xs:schema targetNamespace="%s"%s%s xmlns:dtr="http://www.xbrl.org/dtr/type/non-numeric">\n'
                '<xs:annotation><xs:appinfo>\n%s\n</xs:appinfo></xs:annotation>\n%s\n</xs:schema>\n') % (
            self.ns[i], nsdecl("xs", "xbrli", "link", "xlink", "xbrldt"), self.schema_head(i, self.imports[i]),
            "\n".join(ann), "\n".join(lines))
        self.bodies[i] = body
        self.add(f)

    def domain(self, typed):
        return '<xs:element id="%s" name="%s" type="xs:string"/>' % (typed, typed.split("_")[1])

    def noise(self, body, space=True):
        """what stands between elements and means nothing: comments, processing instructions, white space"""
        r = self.r
        parts = body.split("><")
        out = [parts[0]]
        for x in parts[1:]:
            out.append("><" if r.random() < 0.8 else r.choice(("><!-- a comment, with <tags> --><", "><?note this is not for brel?><", ">\n\t <" if space and x[0] not in "/!" else "><")))
            out.append(x)
        return "".join(out)

    def restyle(self, body, always=()):
        """the same document with other prefixes, or none, for the namespaces of the standards"""
        r = self.r
        schema = "<xs:schema" in body
        inline = "<ix:" in body
        choices = {"link": ("lb", "lnk", "link", ""), "xlink": ("xl", "xlink", "x-l"), "xbrldt": ("dt", "xdt"), "xbrldi": ("di", "xdi"),
                   "iso4217": ("cur", "iso"), "xsi": ("i", "xsi2"), "ref": ("r", "ref"), "ix": ("ixbrl", "x")}
        if schema:
            choices["xs"] = ("xsd", "s", "")
        else:
            choices["xbrli"] = ("xi", "instance", "")
        default = False
        for old in sorted(choices):
            if "xmlns:%s=" % old not in body or r.random() < 0.5:
                continue
            new = r.choice(choices[old])
            if not new and (default or inline or 'xmlns="' in body or "<xhtml:" in body):
                continue
            default = default or not new
            body = re.sub(r"(?<![\w.:-])(?<![^<]/)%s:(?=[A-Za-z])" % old, new + ":" if new else "", body)
            body = body.replace("xmlns:%s=" % old, "xmlns:%s=" % new if new else "xmlns=")
        return body

    def pad(self, text):
        """a name with white space around it"""
        return self.r.choice(("%s ", " %s", "\n  %s\n")) % text if self.k["style"] & 4 and self.r.random() < 0.3 else text

    def inner(self, text):
        """how a text is written, and what it is"""
        r = self.r
        if not self.k["style"] & 2 or r.random() < 0.5:
            return escape(text), text
        how = r.randrange(5)
        if how == 0 and not any(ord(c) > 255 for c in text):
            return "<![CDATA[%s]]>" % text, text
        if how == 1:
            return escape(text[:2]) + "<!-- not a part of it -->" + escape(text[2:]), text
        if how == 2:
            return "".join("&#%d;" % ord(c) if c in "<&ae" else escape(c) for c in text), text
        if how == 3:
            return escape("  %s\n" % text), "  %s\n" % text
        return escape(text + " ' \" {x} %s 100% \t."), text + " ' \" {x} %s 100% \t."

    def markup(self, text):
        """a text with markup in it, for labels and footnotes"""
        r = self.r
        if not self.k["style"] & 2 or r.random() < 0.5:
            return escape(text), text
        tag = r.choice(("b", "span"))
        x = r.choice(('<xh:%s xmlns:xh="http://www.w3.org/1999/xhtml">bold <xh:i>i</xh:i> text</xh:%s>', '<%s xmlns="http://www.w3.org/1999/xhtml">bold <i>i</i> text</%s>'))
        xml = escape(text) + " " + x % (tag, tag) + r.choice(("", " and more"))
        return xml, plain(xml)

    def inline_number(self, value):
        """attributes, text and value of a number in an inline document"""
        r = self.r
        new, prefix = self.registry[1:]
        v = Decimal(value)
        if r.random() < 0.3:
            return "", r.choice(("%s", " %s", "\n%s ")) % value, value
        if v == 0 or r.random() < 0.15:
            kind = "fixed-zero" if new else self.registry[0]
            return ' format="%s:%s"' % (prefix, kind), r.choice(("-", "\u2014", "nil", "no")), "0"
        attrs = ""
        scale = r.choice((0, 0, 3, 6, -2, 1))
        if scale or r.random() < 0.3:
            attrs += ' scale="%d"' % scale
        whole, _, frac = "{:f}".format(v.scaleb(-scale)).partition(".")
        if r.random() < 0.3:
            attrs, value = attrs + ' sign="-"', "-" + value
        how = r.choice(("dot", "comma"))
        sep = r.choice((",", " ", "")) if how == "dot" else r.choice((".", " ", ""))
        name = ("num-%s-decimal" if new else "num%sdecimal") % how
        if self.registry[0] == "numdash":
            name = "num%s%s" % ({".": "dot", ",": "comma"}.get(sep, "space"), how)
        groups = []
        while whole:
            groups.insert(0, whole[-3:])
            whole = whole[:-3]
        text = sep.join(groups) + ({"dot": ".", "comma": ","}[how] + frac if frac else "")
        return attrs + ' format="%s:%s"' % (prefix, name), r.choice(("%s", "%s", " %s", "%s\n")) % text, value

    def inline_text(self, boolean):
        """attributes, text and value of a fact that is no number"""
        r = self.r
        new, prefix = self.registry[1:]
        if boolean:
            v = r.choice(("true", "false"))
            return ' format="%s:%s"' % (prefix, ("fixed-%s" if new else "boolean%s") % v), r.choice(("yes", "X", "no")), v
        if r.random() < 0.5:
            y, m, d = r.randint(1999, 2031), r.randint(1, 12), r.randint(1, 28)
            name, text = r.choice((
                (("date-month-day-year", "datemonthdayyear"), "%d/%d/%d" % (m, d, y)),
                (("date-day-month-year", "datedaymonthyear"), "%02d.%02d.%d" % (d, m, y)),
                (("date-monthname-day-year-en", "datemonthdayyearen"), "%s %d, %d" % (MONTHS[m - 1], d, y))))
            return ' format="%s:%s"' % (prefix, name[0] if new else name[1]), text, "%04d-%02d-%02d" % (y, m, d)
        # the markup is a part of the value
        a, b = r.choice((("x & y", "x &amp; y"), ("1 < 2", "1 &lt; 2"), ("\u00fc\u2026", "\u00fc\u2026"), ("&amp;", "&amp;amp;"), ("", "")))
        xml = r.choice(("%s<p>%s</p>", "<p>%s <b>bold</b> %s</p>", "%s<p class='q'>%s</p> tail & all".replace("&", "&amp;"), "%s<br/>%s")) % (b, b)
        return ' escape="true"', xml, fragment(xml)

    def encode(self, body):
        if self.k["style"] & 1:
            body = self.restyle(body)
        if self.k["quirks"] and self.r.random() < 0.25:
            body = self.noise(body)
        if self.k["quirks"] == 2 and self.r.random() < 0.4:
            body = body.replace('encoding="UTF-8"', 'encoding="ISO-8859-1"')
            return body.encode("latin-1", errors="xmlcharrefreplace")
        if self.k["quirks"] == 2 and self.r.random() < 0.15:
            return body.replace('encoding="UTF-8"', 'encoding="UTF-16"').encode("utf-16")
        if self.k["quirks"] and self.r.random() < 0.2:
            body = body.replace(' xlink:href="', ' xlink:href = "').replace(' schemaLocation="', '\n schemaLocation\t=\n"')
        if self.k["quirks"] and self.r.random() < 0.3:
            body = body.replace("\n", "\r\n")
        if self.k["quirks"] and self.r.random() < 0.2:
            return b"\xef\xbb\xbf" + body.encode("utf-8")
        return body.encode("utf-8")

    def base_uris(self):
        return ["http://www.xbrl.org/2003/xbrl-instance-2003-12-31.xsd", "http://www.xbrl.org/2003/xbrl-linkbase-2003-12-31.xsd"]

    def base_files(self):
        a, b = self.base_uris()
        for me, other in ((a, b), (b, a)):
            f = File(me)
            f.refs.append(other)
            f.body = ('<?xml version="1.0"?><xs:schema targetNamespace="%s"%s><xs:import namespace="urn:x" schemaLocation="%s"/>'
                      '<xs:element name="context" id="b_%s"/></xs:schema>' % (
                          NS["xbrli"], nsdecl("xs", "xbrli"), other.rsplit("/", 1)[1], "i" if me == a else "l")).encode()
            self.add(f)

    # ---- linkbases -------------------------------------------------------------------------
    def lb_uri(self, i, what):
        r = self.r
        base = self.home_of(i)
        name = "%s_%s.xml" % (self.pf[i], what)
        if r.random() < 0.3:
            base += "lb/"
        return base + name

    def loc(self, f, e, label):
        uri = self.schema[e["file"]].uri
        f.refs.append(uri)
        return '<link:loc xlink:type="locator" xlink:href="%s#%s" xlink:label="%s"/>' % (self.ref(f.uri, uri), e["id"], label)

    def close(self, f, links, roles=()):
        refs = []
        for role, i in roles:
            f.refs.append(self.schema[i].uri)
            refs.append('<link:roleRef roleURI="%s" xlink:type="simple" xlink:href="%s#r%s"/>' % (
                role, self.ref(f.uri, self.schema[i].uri), role.rsplit("/", 1)[1]))
        if self.k["shape"] == "cycle" and self.r.random() < 0.3 and not f.uri.startswith("/") and self.k["kind"] == "remote":
            # a linkbase may point at the schema that uses it, or even at itself
            refs.append('<link:arcroleRef arcroleURI="%ssummation-item" xlink:type="simple" xlink:href="%s#x"/>' % (
                AR, self.ref(f.uri, f.uri)))
            f.refs.append(f.uri)
        f.body = self.encode('<?xml version="1.0" encoding="UTF-8"?>\n<link:linkbase%s>\n%s\n%s\n</link:linkbase>\n' % (
            nsdecl("link", "xlink", "xbrldt", "xsi", "ref"), "\n".join(refs), "\n".join(links)))
        self.add(f)
        return f

    def make_linkbases(self, i):
        k, r = self.k, self.r
        flags = k["lbs"]
        known = [e for j in {i} | self.imports[i] for e in self.els[j]]
        mine = self.els[i]
        if flags & 1:
            self.label_lb(i, mine)
        if flags & 2:
            self.tree_lb(i, "presentation", known)
        if flags & 4:
            self.tree_lb(i, "calculation", known)
        if flags & 8 and k["dims"]:
            self.def_lb(i)
        if flags & 16:
            self.ref_lb(i, mine)
        if k["extra"] & 1:
            self.alias_lb(i, mine)

    def alias_lb(self, i, els):
        """several kinds of relationships between the same concepts, in one role"""
        r = random.Random("alias %s %d" % (self.seed, i))
        pool = [e for e in els if e["kind"] == "Concept"]
        if len(pool) < 2:
            return
        a, b = r.sample(pool, 2)
        kinds = r.sample(("essence-alias", "requires-element", "general-special", "similar-tuples"), 2)
        f = File(self.home_of(i) + "%s_alias.xml" % self.pf[i])
        t = f.truth
        role = self.new_role(i, ("definition",))
        arcs = [(a, b, kinds[0]), (a, b, kinds[1])] + [(a, c, kinds[1]) for c in pool if c not in (a, b)][:1]
        rows, orders = [], {}
        for x, y, kind in arcs:
            o = orders[kind] = orders.get(kind, 0) + 1
            rows.append((x, y, AR + kind, 'order="%d"' % o))
            for physical in (True, False):
                t.edges.setdefault(("DefinitionNetwork", physical, role), []).append((x["clark"], y["clark"], float(o), AR + kind, None))
        t.roots[("DefinitionNetwork", False, role)] = {a["clark"]}
        self.linkbases[i].append(self.close(f, self.links(i, f, "definition", role, rows), [(role, i)]))

    def label_lb(self, i, els):
        r = self.r
        f = File(self.lb_uri(i, "lab"))
        t = f.truth
        parts = []
        lk = ("LabelNetwork", True, STD)
        spoken = r.choice(LANGS) if self.k["style"] & 2 else None
        pieces = []
        for n, e in enumerate(els):
            if self.k["style"] & 2 and parts and r.random() < 0.2:
                pieces.append(parts)    # the next labels are in a link of their own
                parts = []
            if r.random() < 0.15 and n:
                continue
            parts.append(self.loc(f, e, "loc_" + e["name"]))
            one_arc = r.random() < 0.5
            combos = [(l, ro) for l in LANGS for ro in LABEL_ROLES]
            r.shuffle(combos)
            combos = combos[: r.randint(1, 3)]
            if r.random() < 0.6 and ("en", LABEL) not in combos:
                combos.append(("en", LABEL))
            t.roots.setdefault(lk, set()).add(e["clark"])
            for m, (lang, role) in enumerate(combos):
                text = "%s %s %s %d" % (e["name"], lang, r.choice(("\u00fcber & co", "<x>", "plain", "caf\u00e9")), r.randrange(1000))
                lab = "lab_%s%s" % (e["name"], "" if one_arc else "_%d" % m)
                xml, text = self.markup(text)
                # the role and the language may be left out, where there is another source
                how = "" if role == LABEL and self.k["style"] & 2 and r.random() < 0.3 else ' xlink:role="%s"' % role
                if lang != spoken or r.random() < 0.5:
                    how += ' xml:lang="%s"' % lang
                parts.append('<link:label xlink:type="resource" xlink:label="%s"%s>%s</link:label>' % (lab, how, xml))
                if not one_arc or m == 0:
                    parts.append('<link:labelArc xlink:type="arc" xlink:arcrole="%sconcept-label" xlink:from="loc_%s" xlink:to="%s" order="%d"/>' % (
                        AR, e["name"], lab, m + 1))
                t.labels.append((e["clark"], role, lang, text))
                t.languages.add(lang)
                t.edges.setdefault(lk, []).append((e["clark"], ("label", role, lang, text)))
                said = (lab, role, lang, text)
            if self.k["style"] & 8 and not one_arc and r.random() < 0.4:
                # the last label is that of another element, too
                other = r.choice(els)
                lab, role, lang, text = said
                if other is not e:
                    parts.append(self.loc(f, other, "again_%s" % lab))
                    parts.append('<link:labelArc xlink:type="arc" xlink:arcrole="%sconcept-label" xlink:from="again_%s" xlink:to="%s" order="7"/>' % (AR, lab, lab))
                    t.roots[lk].add(other["clark"])
                    t.labels.append((other["clark"], role, lang, text))
                    t.edges[lk].append((other["clark"], ("label", role, lang, text)))
        if self.k["loose"] & 4 and len(els) > 1:
            # one arc from several locators with the same label
            text = "shared %d" % r.randrange(1000)
            role = "http://www.xbrl.org/2003/role/commentaryGuidance"
            for e in r.sample(els, r.randint(2, len(els))):
                parts.append(self.loc(f, e, "loc_shared"))
                t.roots.setdefault(lk, set()).add(e["clark"])
                t.labels.append((e["clark"], role, "en", text))
                t.edges.setdefault(lk, []).append((e["clark"], ("label", role, "en", text)))
            parts.append('<link:label xlink:type="resource" xlink:label="lab_shared" xlink:role="%s" xml:lang="en">%s</link:label>' % (role, text))
            parts.append('<link:labelArc xlink:type="arc" xlink:arcrole="%sconcept-label" xlink:from="loc_shared" xlink:to="lab_shared"/>' % AR)
            t.languages.add("en")
        if r.random() < 0.5:
            r.shuffle(parts)
        said = ' xml:lang="%s"' % spoken if spoken else ""
        if spoken:
            t.languages.add(spoken)
        links = ['<link:labelLink xlink:type="extended" xlink:role="%s"%s>\n%s\n</link:labelLink>' % (STD, said, "\n".join(x)) for x in pieces + [parts]]
        self.linkbases[i].append(self.close(f, links))

    def ref_lb(self, i, els):
        r = self.r
        f = File(self.lb_uri(i, "ref"))
        t = f.truth
        parts = []
        lk = ("ReferenceNetwork", True, STD)
        role = "http://www.xbrl.org/2003/role/reference"
        for n, e in enumerate(els):
            if r.random() < 0.4 and n:
                continue
            parts.append(self.loc(f, e, "loc_" + e["name"]))
            t.roots.setdefault(lk, set()).add(e["clark"])
            content = {"Name": "Std %d" % r.randrange(100), "Number": str(r.randrange(900))}
            how = "" if self.k["style"] & 2 and r.random() < 0.3 else ' xlink:role="%s"' % role
            parts.append('<link:reference xlink:type="resource" xlink:label="ref_%s"%s>%s</link:reference>' % (
                e["name"], how, "".join("<ref:%s>%s</ref:%s>" % (a, b, a) for a, b in content.items())))
            parts.append('<link:referenceArc xlink:type="arc" xlink:arcrole="%sconcept-reference" xlink:from="loc_%s" xlink:to="ref_%s"/>' % (
                AR, e["name"], e["name"]))
            t.edges.setdefault(lk, []).append((e["clark"], ("reference", role, tuple(sorted(content.items())))))
        link = '<link:referenceLink xlink:type="extended" xlink:role="%s">\n%s\n</link:referenceLink>' % (STD, "\n".join(parts))
        self.linkbases[i].append(self.close(f, [link]))

    def new_role(self, i, used):
        role = "http://roles.example.com/%s/role/%s%d" % (self.tag, self.pf[i], len(self.roles[i]))
        text = self.r.choice(("%04d - Statement - %s %d" % (len(self.roles[i]), self.pf[i], i), "R&D <b> %d" % i, ""))
        self.roles[i].append((role, text, used))
        return role

    def places(self, n):
        """n values for the order attribute"""
        how = self.r.choice((0, 0, 0, 1, 2, 3, 4))
        if how == 1:
            return [(9, 10, 100, 20, 11, 3)[i % 6] + 1000 * (i // 6) for i in range(n)]
        if how == 2:
            return [("1.5", "10.25", "0.5", "2.0", "1", "3.75")[i % 6] if i < 6 else str(i) for i in range(n)]
        if how == 3:
            return [(0, -1, 2, "-0.5", 1)[i % 5] if i < 5 else i for i in range(n)]
        return list(range(1, n + 1))

    def tree(self, els, depth=3):
        """a random forest over els: list of (parent or None, child, order)"""
        r = self.r
        out, placed = [], []
        for n, e in enumerate(els):
            if n == 0 or (r.random() < 0.25 and n < len(els) - 1):
                out.append((None, e, 1))
            else:
                p = r.choice(placed)
                out.append((p, e, None))
            placed.append(e)
        kids = {}
        res = []
        for p, e, _ in out:
            if p is None:
                res.append((None, e, 1))
            else:
                kids.setdefault(p["clark"], []).append(e)
                res.append((p, e, 0))
        orders = {}
        for c, es in kids.items():
            os_ = self.places(len(es))
            r.shuffle(os_)
            if self.k["loose"] & 4 and r.random() < 0.5:
                os_ = [1] * len(es)
            for e, o in zip(es, os_):
                orders[e["clark"]] = o
        rows = [(p, e, orders.get(e["clark"], 1)) for p, e, _ in res]
        if self.k["style"] & 8:
            # a leaf below a second parent, in another place
            leaves = [(p, e) for p, e, _ in rows if p is not None and e["clark"] not in kids]
            for p, e in r.sample(leaves, min(len(leaves), 2)):
                others = [q for q in placed if q["clark"] in kids and q is not p]
                if others:
                    rows.append((r.choice(others), e, r.choice(("0.25", "77", "78.5"))))
        return rows

    def tree_lb(self, i, what, known):
        r, k = self.r, self.k
        f = File(self.lb_uri(i, what[:3]))
        t = f.truth
        links, roles = [], []
        kinds = ("Concept", "Abstract", "LineItems", "Member") if what == "presentation" else ("Concept",)
        pool = [e for e in known if e["kind"] in kinds and (what == "presentation" or "monetary" in e["type"])]
        if len(pool) < 2:
            return
        nroles = 1 + (r.random() < 0.4)
        for _ in range(nroles):
            els = r.sample(pool, min(len(pool), r.randint(2, max(2, k["els"]))))
            role = None
            if what == "calculation":
                # same role as an already used presentation link, or a new one
                for n, (ro, text, used) in enumerate(self.roles[i]):
                    if "calculation" not in used and r.random() < 0.7:
                        role = ro
                        self.roles[i][n] = (ro, text, used + ("calculation",))
                        break
            role = role or self.new_role(i, (what,))
            roles.append((role, i))
            forest = self.tree(els)
            # every node of a calculation or presentation link takes part in an arc
            haskids = {p["clark"] for p, _, _ in forest if p}
            forest = [x for x in forest if x[0] is not None or x[1]["clark"] in haskids]
            if not forest:
                self.roles[i] = [x if x[0] != role else (x[0], x[1], tuple(y for y in x[2] if y != what)) for x in self.roles[i]]
                roles.pop()
                continue
            typ = "PresentationNetwork" if what == "presentation" else "CalculationNetwork"
            lk = (typ, False, role)
            arc = "parent-child" if what == "presentation" else "summation-item"
            arcs = []
            for n, (p, e, order) in enumerate(forest):
                if p is None:
                    t.roots.setdefault(lk, set()).add(e["clark"])
                    continue
                extra, x = "", None
                if what == "calculation":
                    w = r.choice(("1.0", "-1.0", "1", "-1", "0.5", "-2.25", "1.00"))
                    x = float(w)
                    extra = ' weight="%s"' % w
                elif r.random() < 0.4:
                    x = r.choice(LABEL_ROLES)
                    extra = ' preferredLabel="%s"' % x
                else:
                    x = LABEL
                if order in (1, "1") and r.random() < 0.3:
                    how = ""        # 1 is the default
                else:
                    how = 'order="%s"' % order
                arcs.append((p, e, AR + arc, how + extra))
                t.edges.setdefault(lk, []).append((p["clark"], e["clark"], float(order), AR + arc, x))
            links += self.links(i, f, what, role, arcs)
        if links:
            self.linkbases[i].append(self.close(f, links, roles))

    def links(self, i, f, what, role, arcs):
        """the extended links with these arcs, in one or more pieces and, sometimes, another file"""
        r, loose = self.r, self.k["loose"]
        pieces = [arcs]
        if loose & 1 and len(arcs) > 1:
            pieces = [[], []]
            for a in arcs:
                r.choice(pieces).append(a)
            pieces = [x for x in pieces if x]
        other = File(self.lb_uri(i, "%s_%s" % (what[:3], role.rsplit("/", 1)[1]))) if len(pieces) > 1 and r.random() < 0.5 else None
        out, far = [], []
        for n, piece in enumerate(pieces):
            file = other if other and n else f
            parts, known = [], set()

            def label(e, use):
                lab = "l_" + e["key"] + ("_%d" % len(parts) if loose & 2 and use else "")
                if lab not in known:
                    known.add(lab)
                    parts.append(self.loc(file, e, lab))
                return lab
            todo = [(p, [e], arcrole, attrs) for p, e, arcrole, attrs in piece]
            if loose & 4:
                # one arc for all locators with the same label
                groups = {}
                for p, e, arcrole, attrs in piece:
                    groups.setdefault((p["key"], arcrole, attrs), (p, [], arcrole, attrs))[1].append(e)
                todo = list(groups.values())
            heads = {p["key"] for p, *_ in todo}
            for p, es, arcrole, attrs in todo:
                if len(es) > 1 and not any(e["key"] in heads for e in es):
                    lab = "many_%d" % len(parts)
                    parts += [self.loc(file, e, lab) for e in es]
                    parts.append('<link:%sArc xlink:type="arc" xlink:arcrole="%s" xlink:from="%s" xlink:to="%s" %s/>' % (
                        what, arcrole, label(p, r.random() < 0.3), lab, attrs))
            for p, e, arcrole, attrs in [(p, e, arcrole, attrs) for p, es, arcrole, attrs in todo for e in es
                                         if len(es) == 1 or any(x["key"] in heads for x in es)]:
                a, b = label(p, r.random() < 0.3), label(e, r.random() < 0.3)
                parts.append('<link:%sArc xlink:type="arc" xlink:arcrole="%s" xlink:from="%s" xlink:to="%s" %s/>' % (what, arcrole, a, b, attrs))
            if r.random() < 0.5:
                r.shuffle(parts)
            (far if other and n else out).append(
                '<link:%sLink xlink:type="extended" xlink:role="%s">\n%s\n</link:%sLink>' % (what, role, "\n".join(parts), what))
        if far:
            self.linkbases[i].append(self.close(other, far, [(role, i)]))
        return out

    def def_lb(self, i):
        r = self.r
        f = File(self.lb_uri(i, "def"))
        t = f.truth
        by = {}
        for e in self.els[i]:
            by.setdefault(e["kind"], []).append(e)
        if "Hypercube" not in by:
            return
        role = self.new_role(i, ("definition",))
        arcs = []
        li, cube = by["LineItems"][0], by["Hypercube"][0]
        arcs.append((li, cube, "all", 1))
        cs, ds = by.get("Concept", [])[:3], by["Dimension"]
        for o, c in zip(self.places(len(cs)), cs):
            arcs.append((li, c, "domain-member", o))
        for o, d in zip(self.places(len(ds)), ds):
            arcs.append((cube, d, "hypercube-dimension", o))
            if d.get("typed"):
                continue
            stem = d["name"][:-4]
            dom = next(e for e in by["Member"] if e["name"] == stem + "Domain")
            arcs.append((d, dom, "dimension-domain", 1))
            ms = [e for e in by["Member"] if e["name"].startswith("M" + stem[1:]) and e["name"].endswith("Member")]
            for o2, m in zip(self.places(len(ms)), ms):
                arcs.append((dom, m, "domain-member", o2))
        if self.k["style"] & 8:
            # a member of another domain, or below another member, too
            inner = [(a, b) for a, b, ar, _ in arcs if ar == "domain-member" and b["kind"] == "Member"]
            for a, b in r.sample(inner, min(len(inner), 2)):
                others = [x for x in by["Member"] if x is not a and x is not b and x["name"].endswith("Domain")]
                if others:
                    arcs.append((r.choice(others), b, "domain-member", r.choice(("0.25", "77"))))
        rows = []
        for a, b, ar, o in arcs:
            extra = ' xbrldt:contextElement="segment" xbrldt:closed="true"' if ar == "all" else ""
            how = "" if o in (1, "1") and r.random() < 0.3 else 'order="%s"' % o
            rows.append((a, b, DAR + ar, how + extra))
            t.edges.setdefault(("DefinitionNetwork", False, role), []).append((a["clark"], b["clark"], float(o), DAR + ar, None))
            t.edges.setdefault(("DefinitionNetwork", True, role), []).append((a["clark"], b["clark"], float(o), DAR + ar, None))
        t.roots[("DefinitionNetwork", False, role)] = {li["clark"]}
        self.linkbases[i].append(self.close(f, self.links(i, f, "definition", role, rows), [(role, i)]))

    # ---- instances -------------------------------------------------------------------------
    def periods(self):
        return [("2023-12-31",), ("2022-12-31",), ("2023-01-01", "2023-12-31"), ("2022-01-01", "2022-12-31")]

    def context_xml(self, cid, ctx, pf):
        period, ent, dims = ctx
        p = "<xbrli:instant>%s</xbrli:instant>" % period if len(period) == 1 else \
            "<xbrli:startDate>%s</xbrli:startDate><xbrli:endDate>%s</xbrli:endDate>" % period
        seg = scen = ""
        if dims:
            seg = "".join(
                '<xbrldi:explicitMember dimension="%s:%s">%s</xbrldi:explicitMember>' % (pf[d["file"]], d["name"], self.pad("%s:%s" % (pf[m["file"]], m["name"])))
                if not isinstance(m, str) else
                '<xbrldi:typedMember dimension="%s:%s"><%s:%s>%s</%s:%s></xbrldi:typedMember>' % (
                    pf[d["file"]], d["name"], pf[d["file"]], d["typed"].split("_")[1], m, pf[d["file"]], d["typed"].split("_")[1])
                for d, m in dims)
            # dimensions are part of the segment or of the scenario
            if self.k["clash"] & 128:
                scen = "<xbrli:scenario>%s</xbrli:scenario>" % seg
                seg = ""
            else:
                seg = "<xbrli:segment>%s</xbrli:segment>" % seg
        return ('<xbrli:context id="%s"><xbrli:entity><xbrli:identifier scheme="%s">%s</xbrli:identifier>%s'
                '</xbrli:entity><xbrli:period>%s</xbrli:period>%s</xbrli:context>') % (cid, ent[0], self.pad(ent[1]), seg, p, scen)

    def make_instances(self):
        for n in range(self.k["instances"]):
            self.instance(n)

    def instance(self, n):
        k, r, u = self.k, self.r, self.u
        inline = k["inline"] and (n == 0)
        ext = r.choice((".xhtml",)) if inline else ".xml"
        f = File(self.ext_dir + ("report" if n == 0 else "report%d" % n) + ext)
        t = f.truth
        all_els = [e for es in self.els for e in es]
        concepts = [e for e in all_els if e["kind"] == "Concept"]
        explicit = [e for e in all_els if e["kind"] == "Dimension" and not e.get("typed")]
        typed = [e for e in all_els if e.get("typed")]
        pf = self.prefixes()
        scheme = "http://www.sec.gov/CIK"
        ents = [(scheme, x) for x in ("0000320193", "0000789019")][: 1 + (k["els"] > 3)]
        if k["clash"] & 16:
            ents.append(("http://www.gleif.org/%d" % n, "0000320193"))
        ctxs = []
        for c in range(2 + k["facts"] // 3):
            dims = []
            if k["dims"] and r.random() < 0.6 and explicit:
                for d in r.sample(explicit, min(len(explicit), r.randint(1, 2))):
                    ms = [e for e in all_els if e["kind"] == "Member" and e["file"] == d["file"] and e["name"].startswith("M" + d["name"][1:-4])]
                    dims.append((d, r.choice(ms)))
            if typed and r.random() < 0.4:
                dims.append((r.choice(typed), "val%d" % r.randrange(5)))
            ctxs.append((r.choice(self.periods()), r.choice(ents), dims))
        units = [("usd", "iso4217:USD", None), ("shares", "xbrli:shares", None), ("ups", "iso4217:USD", "xbrli:shares")]
        if k["clash"] & 32 and n:
            # the ids of the other instance, for other units
            units = [("usd", "iso4217:EUR", None), ("shares", "iso4217:CHF", "xbrli:shares"), ("ups", "xbrli:pure", None)]

        if k["style"] & 4:
            units.append(("u_odd.%d" % n, "xbrli:pure", "iso4217:USD", "xbrli:shares"))

        def unit_text(unit):
            return "%s %s %s" % (unit[0], [clark(NS[x.split(":")[0]], x.split(":")[1]) for x in unit[1:2]],
                                 [clark(NS[x.split(":")[0]], x.split(":")[1]) for x in unit[2:] if x])
        body_facts, hidden, conts = [], [], []
        ways = inline and k["style"] & 16
        version = "2020-02-12"
        prefix = "ixt"
        if ways:
            version, prefix = r.choice(sorted(REGISTRIES)), r.choice(("ixt", "ixt4", "tr"))
        self.registry = REGISTRIES[version] + (prefix,)
        ids = []
        for j in range(k["facts"]):
            e = r.choice(concepts)
            ci = r.randrange(len(ctxs))
            period, ent, dims = ctxs[ci]
            fid = "f%d_%d" % (n, j) if r.random() < 0.75 or inline else None
            if k["clash"] & 64 and not inline and fid:
                fid = "e%d" % j
            num = "stringItem" not in e["type"] and "boolean" not in e["type"]
            if num:
                value = str(r.randrange(0, 10 ** r.randint(1, 9)))
                if "decimal" in e["type"] and r.random() < 0.5:
                    value += ".%d5" % r.randrange(10)
            elif "boolean" in e["type"]:
                value = r.choice(("true", "false"))
            else:
                value = r.choice(("text %d" % j, "\u00e4\u00f6\u00fc %d" % j, "a < b & c %d" % j, "line\u2026 %d" % j))
            unit = None
            if num:
                unit = units[0] if "monetary" in e["type"] else r.choice(units)
            if e["nillable"] == "true" and r.random() < 0.3 and (not inline or ways):
                value = ""
            dimt = tuple(sorted((d["clark"], m if isinstance(m, str) else m["clark"]) for d, m in dims))
            pt = " ".join(period)
            exact = ("0", None)
            if k["style"] & 4 and num and value:
                exact = r.choice((("0", None), ("-3", None), ("INF", None), ("2", None), (None, "4"), (None, "INF"), (None, None)))
            written = escape(value)
            if value and not inline and not num and "string" in e["type"]:
                written, value = self.inner(value)
            xact = tuple(repr(None if x is None or not unit or not value else float(x)) for x in exact)
            rec = (e["clark"], value, pt, "%s {%s}%s" % (ent[:1] + ent), (unit_text(unit) if unit else None), dimt, fid) + xact
            t.facts.append(rec)
            if fid:
                ids.append((fid,) + ("fact", fid) + rec[:1] + rec[2:5])
            ida = ' id="%s"' % fid if fid else ""
            ua = ' unitRef="%s"' % unit[0] if unit else ""
            xa = "".join(' %s="%s"' % (a, x) for a, x in zip(("decimals", "precision"), exact) if x and unit and value)
            if not inline:
                nil = ' xsi:nil="true"' if value == "" else ""
                body_facts.append('<%s:%s%s contextRef="c%d"%s%s>%s</%s:%s>' % (
                    pf[e["file"]], e["name"], ida, ci, ua + xa, nil, written, pf[e["file"]], e["name"]))
                if k["style"] & 4 and not fid and r.random() < 0.3:
                    # the same once more is another fact
                    body_facts.append(body_facts[-1])
                    t.facts.append(rec)
            else:
                tag = "nonFraction" if unit else "nonNumeric"
                written, plainly = escape(value), True
                if ways and not value:
                    xa, plainly = ' xsi:nil="true"', False
                elif ways and (unit or version > "2011" and r.random() < 0.5):
                    more, written, value = self.inline_number(value) if unit else self.inline_text("boolean" in e["type"])
                    xa, plainly = xa + more, False
                    rec = t.facts[-1] = rec[:1] + (value,) + rec[2:]
                    if unit and r.random() < 0.3:
                        # the same number, for another concept, too
                        e2 = r.choice(concepts)
                        written = r.choice(("%s", " %s", "%s\n")) % '<ix:nonFraction name="%s:%s" id="w%d" contextRef="c%d"%s>%s</ix:nonFraction>' % (pf[e2["file"]], e2["name"], j, ci, ua + xa, written)
                        t.facts.append((e2["clark"],) + rec[1:6] + ("w%d" % j,) + rec[7:])
                fx = '<ix:%s name="%s:%s"%s contextRef="c%d"%s>%s</ix:%s>' % (tag, pf[e["file"]], e["name"], ida, ci, ua + xa, written, tag)
                text_parts = None
                if k["cont"] and not unit and "stringItem" in e["type"] and plainly:
                    how = r.random()
                    if how < 0.45:
                        # the text goes on elsewhere in the document
                        n_parts = r.randint(1, 3)
                        text_parts = ["part %d.%d " % (j, i) for i in range(n_parts)]
                        fx = '<ix:nonNumeric name="%s:%s"%s contextRef="c%d" continuedAt="k%d_0">%s</ix:nonNumeric>' % (
                            pf[e["file"]], e["name"], ida, ci, j, escape(value))
                        for i, tx in enumerate(text_parts):
                            more = ' continuedAt="k%d_%d"' % (j, i + 1) if i + 1 < n_parts else ""
                            conts.append('<div><ix:continuation id="k%d_%d"%s><b>%s</b></ix:continuation></div>' % (j, i, more, tx))
                        t.facts[-1] = rec[:1] + (value + "".join(text_parts),) + rec[2:]
                    elif how < 0.7 and body_facts:
                        # a text block around another fact
                        inner = body_facts.pop()
                        fx = '<ix:nonNumeric name="%s:%s"%s contextRef="c%d">%s</ix:nonNumeric>' % (pf[e["file"]], e["name"], ida, ci, inner)
                        t.facts[-1] = rec[:1] + (plain(inner),) + rec[2:]
                    elif how < 0.85:
                        fx = '<ix:nonNumeric name="%s:%s"%s contextRef="c%d">%s<ix:exclude> page 3 </ix:exclude> end</ix:nonNumeric>' % (
                            pf[e["file"]], e["name"], ida, ci, escape(value))
                        t.facts[-1] = rec[:1] + (value + " end",) + rec[2:]
                if r.random() < 0.2 and "<p>" not in fx:
                    hidden.append(fx)
                else:
                    body_facts.append("<p>Item %d: %s</p>" % (j, fx))
        cx = [self.context_xml("c%d" % c, x, pf) for c, x in enumerate(ctxs)]
        ux = []
        for uid, num_, *den in units:
            top, *below = ["<xbrli:measure>%s</xbrli:measure>" % self.pad(x) for x in [num_] + den if x]
            if below:
                top = ('<xbrli:divide><xbrli:unitNumerator>%s</xbrli:unitNumerator><xbrli:unitDenominator>%s</xbrli:unitDenominator>'
                       '</xbrli:divide>') % (top, "".join(below))
            ux.append('<xbrli:unit id="%s">%s</xbrli:unit>' % (uid, top))
        refs = []
        f.refs.append(self.schema[0].uri)
        refs.append('<link:schemaRef xlink:type="simple" xlink:href="%s"/>' % self.ref(f.uri, self.schema[0].uri))
        if k["split"] and k["taxes"]:
            j = r.randrange(1, k["taxes"] + 1)
            f.refs.append(self.schema[j].uri)
            refs.append('<link:schemaRef xlink:type="simple" xlink:href="%s"/>' % self.ref(f.uri, self.schema[j].uri))
        for lb in self.held:
            f.refs.append(lb.uri)
            refs.append('<link:linkbaseRef xlink:type="simple" xlink:href="%s" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>' % self.ref(f.uri, lb.uri))
        declared = nsdecl("xbrli", "link", "xlink", "xsi", "iso4217", "xbrldi") + self.schema_head(0, range(len(self.ns)), pf)
        if k["hints"] and not inline:
            # where the schema of a namespace can be found, said once more
            j = r.randrange(len(self.schema))
            f.refs.append(self.schema[j].uri)
            declared += ' xsi:schemaLocation="%s %s"' % (self.ns[j], self.ref(f.uri, self.schema[j].uri))
        notes, rel = [], []
        if k["notes"] and ids:
            lk = ("FootnoteNetwork", True, STD)
            chosen = r.sample(ids, min(len(ids), 1 + k["notes"]))
            if not inline:
                for m, (fid, *fact) in enumerate(chosen):
                    text = "Note %d %s" % (m, r.choice(("x", "\u00e9", "&")))
                    notes.append('<link:loc xlink:type="locator" xlink:href="#%s" xlink:label="fl%d"/>' % (fid, m))
                    xml, text = self.markup(text)
                    if "<" in xml and r.random() < 0.5:
                        xml, text = xml[xml.index("<"):], plain(xml[xml.index("<"):])     # all of it is markup
                    how = "" if k["style"] & 2 and r.random() < 0.3 else ' xlink:role="http://www.xbrl.org/2003/role/footnote"'
                    notes.append('<link:footnote xlink:type="resource" xlink:label="fn%d"%s xml:lang="en">%s</link:footnote>' % (m, how, xml))
                    notes.append('<link:footnoteArc xlink:type="arc" xlink:arcrole="%sfact-footnote" xlink:from="fl%d" xlink:to="fn%d" order="%d"/>' % (AR, m, m, m + 1))
                    t.edges.setdefault(lk, []).append((tuple(fact), ("footnote", text), m + 1.0))
                    t.languages.add("en")
                notes = ['<link:footnoteLink xlink:type="extended" xlink:role="%s">%s</link:footnoteLink>' % (STD, "".join(notes))]
            else:
                fns = []
                for m in range(2):
                    text = "Inline note %d" % m
                    fns.append(text)
                    notes.append('<p><ix:footnote id="fn%d" xml:lang="en" footnoteRole="http://www.xbrl.org/2003/role/footnote">%s</ix:footnote></p>' % (m, text))
                t.languages.add("en")
                parts = [(chosen, 1)]
                if ways:
                    # footnotes of several relationships, in another order
                    cut = r.randint(1, len(chosen))
                    parts = [(x, o) for x, o in ((chosen[:cut], r.randint(1, 9)), (chosen[cut:], 2.5)) if x]
                for some, o in parts:
                    rel.append('<ix:relationship fromRefs="%s" toRefs="fn0 fn1" arcrole="%sfact-footnote" linkRole="%s" order="%s"/>' % (
                        " ".join(x[0] for x in some), AR, STD, o))
                    for fid, *fact in some:
                        for text in fns:
                            t.edges.setdefault(lk, []).append((tuple(fact), ("footnote", text), float(o)))
                if ways and len(ids) > 1 and r.random() < 0.6:
                    # a fact that explains another one
                    (a, *fact), (b, *other) = r.sample(ids, 2)
                    rel.append('<ix:relationship fromRefs="%s" toRefs="%s" arcrole="http://www.xbrl.org/2009/arcrole/fact-explanatoryFact" linkRole="%s" order="0.5"/>' % (a, b, STD))
                    t.edges.setdefault(lk, []).append((tuple(fact), tuple(other), 0.5))
                if ways and r.random() < 0.3:
                    # ends of a relationship that do not exist are reported and lose nothing else
                    (a, *fact) = r.choice(ids)
                    left, right = r.choice((("gone", "fn0"), (a, "gone"), ("gone " + a, "fn0 gone")))
                    rel.append('<ix:relationship fromRefs="%s" toRefs="%s" arcrole="%sfact-footnote" linkRole="%s" order="12"/>' % (left, right, AR, STD))
                    t.faulty = True
                    if " " in left:
                        t.edges.setdefault(lk, []).append((tuple(fact), ("footnote", fns[0]), 12.0))
                if ways and r.random() < 0.4:
                    rel.append('<link:roleRef roleURI="%s" xlink:type="simple" xlink:href="%s#r"/>' % ("http://example.org/role/n", self.ref(f.uri, self.schema[0].uri)))
        for c in conts:
            body_facts.insert(r.randrange(len(body_facts) + 1), c)
        if k["bad"]:
            self.spoil(k["bad"], inline, pf, concepts, body_facts, cx, ux, notes, rel)
        if not inline:
            rest = cx + ux + body_facts + notes
            if k["style"] & 4 and r.random() < 0.5:
                r.shuffle(rest)
            xml = '<?xml version="1.0" encoding="UTF-8"?>\n<xbrli:xbrl%s>\n%s\n</xbrli:xbrl>\n' % (declared, "\n".join(refs + rest))
        else:
            xml = ('<?xml version="1.0" encoding="UTF-8"?>\n<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" '
                   'xmlns:%s="http://www.xbrl.org/inlineXBRL/transformation/%s"%s><head><title>r</title></head><body><div style="display:none"><ix:header>'
                   '<ix:hidden>%s</ix:hidden><ix:references>%s</ix:references><ix:resources>%s</ix:resources></ix:header></div>%s</body></html>' % (
                       prefix, version, declared, "".join(hidden), "".join(refs), "".join(cx + ux + rel), "\n".join(body_facts + notes)))
        if inline and k["style"] & 1:
            xml = self.restyle(xml)
        f.body = (self.noise(xml, False) if k["quirks"] and r.random() < 0.25 else xml).encode("utf-8") if inline else self.encode(xml)
        self.add(f)
        u.instances.append(f.uri)

    def spoil(self, n, inline, pf, concepts, body, cx, ux, notes, rel):
        """malformed constructs, each of which brel reports in the list of errors"""
        r = self.r
        cx.append('<xbrli:context id="noperiod"><xbrli:entity><xbrli:identifier scheme="urn:x">1</xbrli:identifier></xbrli:entity></xbrli:context>')
        cx.append('<xbrli:context id="noentity"><xbrli:period><xbrli:instant>2023-12-31</xbrli:instant></xbrli:period></xbrli:context>')
        cx.append('<xbrli:context id="baddate"><xbrli:entity><xbrli:identifier scheme="urn:x">1</xbrli:identifier></xbrli:entity><xbrli:period>'
                  '<xbrli:instant>2023-13-45</xbrli:instant></xbrli:period></xbrli:context>')
        if self.k["style"]:
            # the day is not said
            for c in range(2):
                cx.append('<xbrli:context id="month%d"><xbrli:entity><xbrli:identifier scheme="urn:x">1</xbrli:identifier></xbrli:entity><xbrli:period>'
                          '<xbrli:instant>%s</xbrli:instant></xbrli:period></xbrli:context>' % (c, r.choice(("2023-11", "2024", "2023-02", "12-30", "31"))))
        cx.append('<xbrli:context id="swapped"><xbrli:entity><xbrli:identifier scheme="urn:x">1</xbrli:identifier></xbrli:entity><xbrli:period>'
                  '<xbrli:startDate>2023-12-31</xbrli:startDate><xbrli:endDate>2023-01-01</xbrli:endDate></xbrli:period></xbrli:context>')
        for j in range(2 * n):
            e = r.choice(concepts)
            ctx = r.choice(("missing%d" % j if inline else "noperiod", "noperiod", "noentity", "baddate", "swapped", "c0", "c1") + (("month0", "month1") if self.k["style"] else ()))
            unit = r.choice(("usd", "nounit%d" % j)) if inline else "usd"
            name = "%s:%s" % (pf[e["file"]], e["name"] if r.random() < 0.7 else "Unknown%d" % j)
            if not inline:
                fx = '<%s contextRef="%s" unitRef="%s" decimals="0">%s</%s>' % (name, ctx, unit, r.choice(("1", "")), name)
            else:
                how = r.randrange(6)
                if how < 3:
                    fx = '<p><ix:nonFraction id="b%d" name="%s" contextRef="%s" unitRef="%s" decimals="0">%s</ix:nonFraction></p>' % (
                        j, name, ctx, unit, r.choice(("12", "twelve", "-3")))
                elif how == 3:
                    fx = '<p><ix:nonNumeric id="b%d" name="%s" contextRef="%s" continuedAt="nowhere%d">x</ix:nonNumeric></p>' % (j, name, "c0", j)
                else:
                    fx = '<p><ix:continuation id="unused%d">lost text %d</ix:continuation></p>' % (j, j)
            body.insert(r.randrange(len(body) + 1), fx)
        if inline:
            for j in range(r.choice((0, 2, 3, 5))):
                body.append('<p><ix:continuation id="never%d">lost text %d</ix:continuation></p>' % (j, j))

    def write_catalog(self):
        seen = set()
        rows = []
        q = random.Random("nest %s" % self.seed)
        decoys = []
        for start, local, i in self.catalog:
            # a shorter start string, which leads nowhere, and applies where no longer one does
            cut = start[:-1].rsplit("/", 1)[0] + "/"
            if cut.count("/") == 2:
                cut = start[:-q.randint(2, 3)]
            others = [b for j, b in enumerate(self.tax_base) if not self.mapped(j)] + [x for x in self.u.servers]
            if q.random() < 0.4 and cut not in [x for x, _, _ in self.catalog] and not any(x.startswith(cut) for x in others):
                decoys.append((cut, self.ext_dir + "mapped/none/", i))
        listed = decoys + self.catalog if q.random() < 0.6 else self.catalog + decoys
        for start, local, i in listed:
            if start in seen:
                continue
            seen.add(start)
            rel = posixpath.relpath(local, self.ext_dir + "META-INF") + "/"
            rows.append('<rewriteURI uriStartString="%s" rewritePrefix="%s"/>' % (start, rel))
        self.u.docs[self.ext_dir + "META-INF/catalog.xml"] = (
            '<?xml version="1.0"?><catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog">%s</catalog>' % "".join(rows)).encode()

    def finish(self):
        u, k = self.u, self.k

        def reach(starts):
            seen, todo = set(), list(starts)
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo += u.files[x].refs
            return seen
        entries = []
        if k["kind"] == "remote":
            for uri in u.instances:
                entries.append((uri, [uri]))
        elif k["kind"] == "file":
            for uri in u.instances:
                entries.append((uri, [uri]))
        else:
            # a folder: every file in it is an entry file
            entries.append((self.folder, [x for x in u.files if x.startswith(self.folder + "/")]))
            if k["zip"] and all(x.startswith(self.folder + "/") or u.files[x].remote for x in reach(entries[0][1])):
                entries.append((self.folder + ".zip", entries[0][1]))
                u.docs[self.folder + ".zip"] = pack({p[len(self.folder) + 1:]: b for p, b in u.docs.items() if p.startswith(self.folder + "/")},
                                                     posixpath.basename(self.folder), k["zip"])
        for entry, starts in entries:
            t = Truth(bool(k["bad"]))
            t.files = reach(starts)
            for x in sorted(t.files):
                t.absorb(u.files[x].truth)
            u.entries.append(entry)
            u.truth[entry] = t


def pack(docs, name, how=1):
    """a zip file of the folder called name; always the same bytes for the same content"""
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        up = any(b"../" in b for p, b in docs.items() if not p.startswith("META-INF"))
        top = name + "/" if how & 2 or up else ""
        for p in sorted(docs, reverse=bool(how & 1)):
            z.writestr(zipfile.ZipInfo(top + p), docs[p], zipfile.ZIP_DEFLATED if how & 1 else zipfile.ZIP_STORED)
    return out.getvalue()


def make(seed, **knobs):
    return Builder(seed, knobs).build()


def random_knobs(r, kind=None, size="small"):
    """a random configuration"""
    k = {}
    k["kind"] = kind or r.choice(("remote", "remote", "file", "folder", "local-all"))
    small = size == "small"
    k["taxes"] = r.choice((0, 1, 1, 2)) if small else r.choice((1, 2, 3, 4, 5))
    k["els"] = r.choice((2, 3, 4)) if small else r.choice((3, 5, 8))
    k["facts"] = r.choice((2, 4, 6)) if small else r.choice((6, 12, 20))
    k["lbs"] = r.choice((1, 2, 3, 7)) if small else r.choice((3, 7, 15, 23, 31))
    k["shape"] = r.choice(("chain", "star", "diamond", "cycle"))
    k["hosts"] = r.choice((1, 2, 3))
    k["sec"] = r.random() < 0.3
    k["notes"] = r.choice((0, 0, 1, 2))
    k["dims"] = r.choice((0, 1)) if small else r.choice((0, 1, 2))
    k["base"] = r.random() < (0.15 if small else 0.4)
    k["inline"] = int(r.random() < 0.2)
    k["quirks"] = r.choice((0, 0, 1, 2))
    k["cont"] = int(r.random() < 0.6)
    k["split"] = int(r.random() < 0.2)
    if k["kind"] in ("folder", "local-all"):
        k["catalog"] = int(r.random() < 0.4) if k["kind"] == "folder" and k["taxes"] else 0
        k["instances"] = r.choice((1, 1, 2))
        if k["instances"] > 1:
            k["inline"] = 0
    k["held"] = int(r.random() < 0.25)
    k["loose"] = r.choice((1, 2, 3, 4, 4, 5, 7)) if r.random() < 0.3 else 0
    k["hints"] = int(r.random() < 0.25)
    k["deep"] = (r.choice((3, 8)) if small else r.choice((5, 20, 50))) if r.random() < 0.12 else 0
    k["pad"] = r.choice((20, 150, 1200, 3000)) if r.random() < 0.05 else 0
    if r.random() < 0.3:
        k["clash"] = r.choice((1, 2, 4, 8, 16, 32, 64, 96, 127, 128, 128, 255))
    if k["kind"] in ("folder", "local-all") and r.random() < 0.4:
        k["zip"] = r.choice((1, 2, 3))
    if r.random() < 0.25:
        k["extra"] = r.choice((1, 2, 4, 8, 15))
    if r.random() < 0.35:
        k["style"] = r.choice((1, 2, 4, 8, 15))
    if k["inline"] and r.random() < 0.6:
        k["style"] = k.get("style", 0) | 16
    if k["kind"] != "remote":
        k["names"] = r.choice((0, 0, 0, 1, 2, 3, 4))
    return k

"""Filings with names and references that try to lead a write somewhere else."""
import io
import random
import zipfile
from xml.sax.saxutils import quoteattr

SCHEMA = '<?xml version="1.0"?><xs:schema targetNamespace="urn:h%d" xmlns:xs="http://www.w3.org/2001/XMLSchema">%s</xs:schema>'

REMOTE = [
    "http://evil.example.org/../../../../../../sim/docs/keep.txt",
    "http://evil.example.org/%2e%2e/%2e%2e/%2e%2e/sim/home/.profile",
    "http://evil.example.org/..%2f..%2f..%2fsim%2fdocs%2fevil.xsd",
    "http://evil.example.org/a?../../../../sim/docs/evil.xsd",
    "http://evil.example.org//sim/docs/evil.xsd",
    "http:///sim/docs/evil.xsd",
    "http:/sim/docs/evil.xsd",
    "httpx/../../../docs/evil.xsd",
    "http:\\\\..\\..\\sim\\docs\\evil.xsd",
    "http://evil.example.org/..",
    "http://evil.example.org/.",
    "http://evil.example.org/",
    "http://evil.example.org",
    "http://evil.example.org/a/..;/b.xsd",
    "http://evil.example.org/" + "a" * 300 + ".xsd",
    "http://evil.example.org/" + "b/" * 200 + "x.xsd",
    "http://evil.example.org/\u202e\u0085name.xsd",
    "http://evil.example.org/con.xsd",
    "http://evil.example.org/~root/.ssh/authorized_keys",
    "http://evil.example.org/.profile",
    "http://user:pw@evil.example.org/x.xsd",
    "http://evil.example.org/x.xsd\n/../../y.xsd",
    "http://evil.example.org/*?<>|\"'.xsd",
    "http://[::1]/x.xsd",
    "https://evil.example.org/$HOME/`id`/x.xsd",
    "http://evil.example.org/x.xsd;/../../../../sim/home/notes/todo.xml",
    "http.xsd/../../home/notes/todo.xml",
]
LOCAL = [
    "../../home/notes/todo.xml", "/sim/home/notes/todo.xml", "../keep.txt", "file:///sim/home/notes/todo.xml", "file:/sim/docs/keep.txt",
    "//sim/docs/keep.txt", "~/notes/todo.xml", "", ".", "..", "/", "/dev/null", "..\\..\\home\\notes\\todo.xml", "C:\\x.xsd",
    "ftp://evil.example.org/x.xsd", "data:text/xml,<a/>", "jar:file:/x.jar!/y.xsd", "| touch /sim/docs/owned", "x.xsd\u0000y"]
MEMBERS = [
    "../keep.txt", "../../home/.profile", "../../../../../../sim/docs/keep.txt", "/sim/docs/keep.txt", "/sim/home/notes/todo.xml", "a/../../../docs/evil.xml",
    "..\\..\\home\\notes\\todo.xml", "C:\\evil.xml", "//sim/docs/evil.xml", "a/./b//c.xml", "~/notes/todo.xml", ".profile", "a/", "../", "dir.xml/",
    "../../home/.brel/cache/evil.xml", "../../home/.brel_cache/evil.xml", "../other.tmp", "\u202eevil.xml", "sp ace.xsd", "entry.xml", "-rf.xml", "con.xml"]


class Hostile:
    def __init__(self):
        self.servers, self.docs, self.entries = {}, {}, []


def make(seed):
    r = random.Random("hostile %s" % seed)
    h = Hostile()
    n = 0
    for e in range(3):
        refs = r.sample(REMOTE, r.randint(1, 4)) + (r.sample(LOCAL, 1) if r.random() < 0.5 else [])
        r.shuffle(refs)
        for x in refs:
            if x.startswith("http"):
                n += 1
                h.servers[x] = (SCHEMA % (n, "")).encode()
        refs = [x.replace("\u0000", "").replace("\u0085", "") for x in refs]
        doctype = ""
        if r.random() < 0.3:
            # entities: a parser that follows them would read (or fetch) other files
            doctype = '<!DOCTYPE x [<!ENTITY a SYSTEM "file:///sim/home/notes/todo.xml"><!ENTITY b "bb">]>'
        base = r.choice(("", "", ' xml:base="http://evil.example.org/../../sim/docs/"'))
        body = ('<?xml version="1.0" encoding="UTF-8"?>%s<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" '
                'xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" '
                'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"%s>%s</xbrli:xbrl>') % (
                    doctype, base,
                    "".join(r.choice(('<link:schemaRef xlink:type="simple" xlink:href=%s/>', '<link:linkbaseRef xlink:type="simple" xlink:href=%s/>'))
                            % quoteattr(x) for x in refs))
        where = r.choice(("/sim/docs/hostile%d/entry.xml" % e, "/sim/docs/hostile%d/..x/ent ry.xml" % e, "/sim/docs/-rf%d/~.xml" % e,
                          "http://evil.example.org/h%s/%d/entry.xml" % (seed, e)))
        (h.servers if where.startswith("http") else h.docs)[where] = body.encode("utf-8")
        h.entries.append(where if r.random() < 0.7 or where.startswith("http") else where.rsplit("/", 1)[0])
        if r.random() < 0.4 and not where.startswith("http"):
            # a catalog that maps things to other places
            h.docs["/sim/docs/hostile%d/META-INF/catalog.xml" % e] = (
                '<?xml version="1.0"?><catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog">'
                '<rewriteURI uriStartString="http://evil.example.org/" rewritePrefix="../../../home/notes/"/></catalog>').encode()
            h.entries[-1] = "/sim/docs/hostile%d" % e
    if r.random() < 0.35:
        # an archive whose members name other places
        out = io.BytesIO()
        with zipfile.ZipFile(out, "w") as z:
            for x in r.sample(MEMBERS, r.randint(2, 8)):
                i = zipfile.ZipInfo(x)
                i.filename = x      # ZipInfo replaces some characters
                if r.random() < 0.2:
                    i.create_system = 3
                    i.external_attr = 0o120777 << 16    # a symbolic link
                    z.writestr(i, r.choice(("../../home/notes", "/sim/docs", "../../home/notes/todo.xml")))
                else:
                    i.external_attr = r.choice((0o100644, 0o100000, 0o104755)) << 16
                    z.writestr(i, b"" if x.endswith("/") else SCHEMA.encode() % (r.randrange(100), b""))
        h.docs["/sim/docs/hostile.zip"] = out.getvalue()
        h.entries.insert(r.randrange(len(h.entries) + 1), "/sim/docs/hostile.zip")
    return h


def bad_zip(seed, texts):
    """an archive with contents that nobody can use, or that is damaged itself"""
    r = random.Random("zip %s" % seed)
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        for i in range(r.choice((1, 1, 2, 3))):
            z.writestr(zipfile.ZipInfo("d/x%d.%s" % (i, r.choice(("xml", "xml", "xhtml", "xsd", "htm", "txt")))), r.choice(texts),
                       r.choice((zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED)))
    b = bytearray(out.getvalue())
    how = r.choice(("good", "good", "cut", "crc", "encrypted", "method", "flip"))
    if how == "cut":
        del b[r.randrange(len(b)):]
    elif how == "flip":
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    elif how != "good":
        c = b.rfind(b"PK\x01\x02")
        at = {"crc": 16, "encrypted": 8, "method": 10}[how]
        b[c + at] ^= 1 if how != "method" else 99
        h = b.rfind(b"PK\x03\x04")
        b[h + {"crc": 14, "encrypted": 6, "method": 8}[how]] ^= 1 if how != "method" else 99
    return bytes(b)

"""The simulated network: stands in for everything below a urllib3 connection pool's request.

Real code above the seam: requests, urllib3's pools, retries and redirects, and urllib3's and
http.client's response parsing and body reading.  Simulated: name resolution, connections, servers, latency, faults.
"""
import gzip
import http.client
import io
import random
import socket
import zlib
from email.utils import formatdate, parsedate_to_datetime
from urllib.parse import urldefrag, urlsplit

import seams
from world import T0, current_actor

# answers other than 200: errors, and some that are no errors but do not bring the file either
STATUSES = (403, 404, 429, 500, 502, 503, 504, 202, 204, 206, 300, 304, 400, 401, 408, 410, 451, 501)
LIKELY = (403, 404, 429, 429, 500, 503, 503, 503) * 2 + STATUSES
# a fault of a single request and the fault that stays for a host until it is repaired
FAULTS = ("refused", "dns", "conn_timeout", "read_timeout", "reset", "ssl", "status", "trunc",
          "trunc_chunked", "trunc_close", "body_reset", "body_stall", "bad_gzip")
CUTS = ("trunc", "trunc_chunked", "trunc_close", "body_reset", "body_stall")
PHRASES = {200: "OK", 202: "Accepted", 204: "No Content", 206: "Partial Content", 300: "Multiple Choices", 304: "Not Modified", 301: "Moved Permanently", 302: "Found", 303: "See Other", 308: "Permanent Redirect", 307: "Temporary Redirect", 400: "Bad Request",
           403: "Forbidden", 404: "Not Found", 429: "Too Many Requests", 500: "Internal Server Error",
           502: "Bad Gateway", 503: "Service Unavailable", 504: "Gateway Timeout"}


def key(uri):
    """the form in which a URI goes over the wire"""
    from requests.models import PreparedRequest
    try:
        p = PreparedRequest()
        p.prepare_url(uri, None)        # takes no step of simulated time
        return urldefrag(p.url)[0]
    except Exception:
        return urldefrag(uri)[0]


class Resource:
    """what a server answers for one URI"""

    def __init__(self, body, status=200, headers=None, redirect=None, etag=0):
        self.body = body
        self.status = status
        self.headers = headers or {}
        self.redirect = redirect
        self.etag = etag


def error_body(status, uri, xmlish):
    if xmlish:
        # some servers answer errors with well-formed XML, even with a taxonomy-like one
        if uri.split("?")[0].endswith(".json"):
            return b'{"message": "error", "filings": {"recent": {"form": []}}}', "application/json"
        return (b'<?xml version="1.0"?><error xmlns="urn:example:error"><code>%d</code></error>' % status,
                "application/xml")
    return b"<html><head><title>%d</title></head><body>error" % status, "text/html"


class _Wire(io.RawIOBase):
    """the byte stream of one response"""

    def __init__(self, world, uri, data, chunk, delay, fault, timeout):
        self.w = world
        self.uri = uri
        self.data = data
        self.pos = 0
        self.chunk = max(chunk, len(data) // 100)
        self.delay = delay
        self.fault = fault          # None, ("reset", at) or ("stall", at)
        self.timeout = timeout
        world.next_handle += 1
        self.h = world.next_handle
        world.live_responses[self.h] = uri

    def readable(self):
        return True

    def readinto(self, b):
        w = self.w
        if seams.acting():
            w.point("net")
            if self.delay:
                w.wait_until(w.clock + self.delay)
        end = min(len(self.data), self.pos + min(len(b), self.chunk))
        if self.fault and end > self.fault[1]:
            end = max(self.fault[1], self.pos)
            if end == self.pos:
                kind = self.fault[0]
                if kind == "reset":
                    raise ConnectionResetError(104, "Connection reset by peer")
                a = current_actor()
                if self.timeout is None:
                    w.hang(a, "the body of " + self.uri)
                w.wait_until(w.clock + self.timeout)
                raise TimeoutError("The read operation timed out")
        data = self.data[self.pos:end]
        self.pos = end
        b[: len(data)] = data
        return len(data)

    def close(self):
        if not self.closed:
            self.w.live_responses.pop(self.h, None)
        super().close()


class _Sock:
    def __init__(self, wire):
        self.wire = wire

    def makefile(self, *a, **k):
        return io.BufferedReader(self.wire, 512)

    def close(self):
        pass


def about(w, r, uri, body, headers):
    """what servers tell about a file besides its content"""
    h = zlib.crc32(body)
    born = min(w.clock, T0) - h % (400 * 86400)
    if r.random() < 0.7:
        headers["Date"] = formatdate(int(w.clock), usegmt=True)
    if zlib.crc32(uri.encode()) % 4:
        headers["Last-Modified"] = formatdate(int(born), usegmt=True)
    if zlib.crc32(uri.encode()) % 3:
        headers["ETag"] = '"%08x"' % h
    headers.update(r.choice(({}, {"Cache-Control": "no-cache"}, {"Cache-Control": "max-age=600"}, {"Cache-Control": "no-store"},
                             {"Expires": formatdate(int(w.clock) + 60, usegmt=True)}, {"Vary": "Accept-Encoding"})))


def same(sent, headers):
    """a conditional request for content that has not changed"""
    sent = {h.lower(): str(x) for h, x in sent.items()}
    if "if-none-match" in sent:
        return "ETag" in headers and headers["ETag"] in sent["if-none-match"]
    if "if-modified-since" in sent and "Last-Modified" in headers:
        try:
            return parsedate_to_datetime(sent["if-modified-since"]) >= parsedate_to_datetime(headers["Last-Modified"])
        except Exception:
            return False
    return False


def sticky(fault):
    return len(fault) == {"status": 4}.get(fault[0], 3 if fault[0] in CUTS else 2) and fault[-1] is True


def adapter_send(self, request, *args, **kwargs):
    """the real adapter, told which URI it sends (below it, only the path is left)"""
    if not seams.acting():
        return seams.real["adapter_send"](self, request, *args, **kwargs)
    a = current_actor()
    a.sending = request.url
    try:
        return seams.real["adapter_send"](self, request, *args, **kwargs)
    finally:
        a.sending = None


def _seconds(pool, timeout):
    from urllib3.util.timeout import Timeout
    t = pool._get_timeout(timeout)
    t.start_connect()
    return tuple(None if x is None else float(x) for x in map(
        Timeout.resolve_default_timeout, (t.connect_timeout, t.read_timeout)))


def make_request(self, conn, method, url, body=None, headers=None, retries=None, timeout=None, chunked=False,
                 response_conn=None, preload_content=True, decode_content=True, enforce_content_length=True, **kw):
    """stands in for urllib3's HTTPConnectionPool._make_request: one request over one connection"""
    import ssl
    import urllib3
    from urllib3 import exceptions as ux
    from urllib3.response import HTTPResponse
    from urllib3._collections import HTTPHeaderDict
    w = seams.WORLD
    if not seams.acting():
        raise ux.NewConnectionError(conn, "no network outside the simulation")
    actor = current_actor()
    uri = getattr(actor, "sending", None)
    if not uri:
        port = "" if self.port in (None, {"http": 80, "https": 443}.get(self.scheme)) else ":%d" % self.port
        uri = url if "://" in url else "%s://%s%s%s" % (self.scheme, self.host, port, url)
    headers = dict(headers or {})
    if not any(h.lower() == "user-agent" for h in headers):
        headers["User-Agent"] = "python-urllib3/" + urllib3.__version__
    sent = headers
    a, n = w.point("req")
    uri = urldefrag(uri)[0]
    host = (urlsplit(uri).hostname or "").lower()
    ct, rt = _seconds(self, timeout)
    entry = {"t": w.clock, "uri": uri, "method": method, "headers": headers,
             "actor": a.name, "inc": w.incarnation, "outcome": "?", "status": None}
    w.requests.append(entry)
    w.event("request", uri)
    w.count("op.request")

    def dist(r):
        for name in FAULTS:
            rate = w.plan.rate("net." + name)
            if rate and r.random() < rate:
                f = [name]
                if name == "status":
                    f += [r.choice(LIKELY), r.random() < 0.4]
                elif name in CUTS:
                    f += [round(r.random(), 3)]
                return f + [r.random() < w.plan.rate("net.sticky")]
        return None

    fault = w.plan.pick("%s:net%d" % (a.name, n), dist) if w.faults_on else None
    if w.faults_on and host in w.down_hosts:
        fault = w.down_hosts[host]
    elif fault and sticky(fault):
        # from now on the server answers every request like this
        fault = w.down_hosts[host] = fault[:-1]
        w.count("fault.net.outage")
    lat = random.Random("%s %s %s %s" % (w.seed, w.incarnation, a.name, n))
    latency = w.cfg.get("latency", 0.02) * (0.5 + lat.random())
    kind = fault[0] if fault else None
    if kind:
        w.count("fault.net." + kind)
        w.event("fault", *map(str, fault))
        entry["outcome"] = kind
        w.fault_sites.add(("request", kind))

    if kind == "refused":
        w.wait_until(w.clock + latency)
        raise ux.NewConnectionError(conn, "Failed to establish a new connection: [Errno 111] Connection refused")
    if kind == "dns":
        w.wait_until(w.clock + latency)
        raise ux.NameResolutionError(host, conn, socket.gaierror(-3, "Temporary failure in name resolution"))
    if kind == "ssl":
        w.wait_until(w.clock + latency)
        raise ssl.SSLError(1, "certificate verify failed")
    if kind == "conn_timeout":
        # the kernel gives up by itself after about two minutes
        w.wait_until(w.clock + min(ct if ct is not None else 127.0, 127.0))
        raise ux.ConnectTimeoutError(conn, "Connection to %s timed out. (connect timeout=%s)" % (host, ct))
    if kind == "read_timeout":
        if rt is None:
            w.hang(a, "an answer of " + uri)
        w.wait_until(w.clock + rt)
        raise ux.ReadTimeoutError(self, url, "Read timed out. (read timeout=%s)" % rt)
    if kind == "reset":
        w.wait_until(w.clock + latency)
        raise http.client.RemoteDisconnected("Remote end closed connection without response")

    w.wait_until(w.clock + latency)
    res = w.servers.get(uri)
    if kind == "status":
        status = fault[1]
        body, ctype = error_body(status, uri, fault[2])
        headers = {"Content-Type": ctype}
        if status in (202, 204, 304):
            body = b""
        elif status == 206 and res is not None and res.body:
            body, ctype = res.body[:len(res.body) // 2], "application/xml"
            headers = {"Content-Type": ctype, "Content-Range": "bytes 0-%d/%d" % (len(body) - 1, len(res.body))}
        if status in (429, 503):
            headers["Retry-After"] = lat.choice(("1", "1", "120", "7200", "172800", "Fri, 31 Dec 2038 23:59:59 GMT", "soon"))
    elif res is None:
        status = 404
        body, ctype = error_body(404, uri, False)
        headers = {"Content-Type": ctype}
        entry["outcome"] = "404"
    elif res.redirect:
        status = res.status if 300 < res.status < 400 else 302
        body, headers = b"", {"Location": res.redirect}
        entry["outcome"] = "redirect"
    else:
        status = res.status
        body = res.body
        if "/submissions/CIK" in uri:
            import re
            mt = re.search(rb'"version": (\d+)', body)
            entry["served"] = int(mt.group(1)) if mt else None
        headers = {"Content-Type": "application/json" if uri.endswith(".json") else "application/xml", **res.headers}
        if kind is None:
            entry["outcome"] = "ok" if status == 200 else str(status)
        if status == 200:
            about(w, lat, uri, body, headers)
            # a client that has the very same content already
            if kind is None and same(sent, headers):
                status, body = 304, b""
    entry["status"] = status
    mode = lat.choice(("length", "length", "length", "chunked", "gzip", "close"))
    if "gzip" not in {h.lower(): str(x) for h, x in sent.items()}.get("accept-encoding", ""):
        mode = "length" if mode == "gzip" else mode
    if kind == "trunc_chunked":
        mode = "chunked"
    elif kind == "bad_gzip":
        mode = "gzip"
    elif kind == "trunc":
        mode = "length"
    elif kind == "trunc_close":
        mode = "close"      # the end of the connection is the end of the body
    if mode == "close" and (status in (204, 304) or method == "HEAD"):
        mode = "length"
    cut = None
    if method == "HEAD":
        body = b""
    if mode == "gzip":
        body = gzip.compress(body, mtime=0)
        headers["Content-Encoding"] = "gzip"
        if kind == "bad_gzip":
            # damage that every reader notices: the header, or the checksum at the end
            at = 0 if lat.random() < 0.4 else len(body) - 8
            body = body[:at] + bytes([body[at] ^ 0x5A]) + body[at + 1:]
    if mode == "chunked":
        size = max(lat.choice((16, 100, 1000, 8192)), len(body) // 200)
        wire = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + size]), body[i:i + size])
                        for i in range(0, len(body), size)) + b"0\r\n\r\n"
        headers["Transfer-Encoding"] = "chunked"
    elif mode == "close":
        wire = body
        headers["Connection"] = "close"
    else:
        wire = body
        headers["Content-Length"] = str(len(body))
    if kind in CUTS:
        # (a body that lacks nothing but the end of the last chunk's frame is complete; where only the
        # end of the connection ends the body, it must lack the end of the document to be recognisable)
        cut = int(max(0, len(wire) - (6 if mode == "chunked" else 1)) * fault[1])
        if mode == "close":
            cut = min(cut, max(wire.rfind(b">"), wire.rfind(b"}"), 0))
        if len(body) == 0:
            cut = None      # nothing to lose
    head = "HTTP/1.1 %d %s\r\n" % (status, PHRASES.get(status, "X"))
    head += "".join("%s: %s\r\n" % kv for kv in headers.items()) + "\r\n"
    data = head.encode("latin-1") + wire
    off = len(data) - len(wire)
    body_fault = None
    if cut is not None:
        if kind.startswith("trunc"):
            data = data[: off + cut]
        else:
            body_fault = (kind[5:], off + cut)
    drip = w.cfg.get("drip", 0.0)
    raw = _Wire(w, uri, data, w.cfg.get("net_chunk", 4096), drip * lat.random(), body_fault, rt)
    httplib = http.client.HTTPResponse(_Sock(raw), method=method)
    httplib.begin()
    w.fault_sites.add(("response", mode))
    resp = HTTPResponse(body=httplib, headers=HTTPHeaderDict(httplib.headers.items()), status=httplib.status,
                        version=httplib.version, reason=httplib.reason, preload_content=preload_content,
                        decode_content=decode_content, original_response=httplib,
                        enforce_content_length=enforce_content_length, request_method=method, request_url=url)
    resp.retries = retries
    resp._connection = response_conn
    resp._pool = self
    return resp

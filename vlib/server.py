"""A simulated www.sofaconventions.org.

Replaces the transport of ``requests`` (the adapter that talks to the network)
by answers from memory.  Every request is logged, faults are injected by URL so
that they do not depend on the order or the number of requests.  Nothing in
here imports or calls sofar.
"""
import contextlib
import http.client
import io
import json
import os
import re
import sys
import tempfile
from urllib.parse import urlsplit, unquote

import requests
import requests.adapters
import urllib3

HOST = "www.sofaconventions.org"
BASE = "/conventions/"
DEP = "/conventions/deprecated/"
GIT, RAW = "github.com", "raw.githubusercontent.com"
TOOLBOX = "sofacoustics/SOFAtoolbox"
SUB = "SOFAtoolbox/conventions"

CONNECT = ["connection refused", "unknown host", "connect timeout",
           "read timeout", "ssl error", "connection reset"]
TRANSFER = ["short body", "timeout in body", "reset in body", "bad encoding"]
STATUS = [400, 401, 403, 404, 408, 410, 418, 429, 451, 500, 501, 502, 503, 504]


def all_faults():
    return CONNECT + TRANSFER + STATUS


class _Broken(io.RawIOBase):
    """A body that breaks after some bytes."""

    def __init__(self, data, exc):
        self.data, self.exc = io.BytesIO(data), exc

    def readable(self):
        return True

    def readinto(self, b):
        d = self.data.read(len(b))
        if not d:
            raise self.exc
        b[:len(d)] = d
        return len(d)


class Server:
    """``offered`` maps file names to bytes for both folders."""

    def __init__(self, standardized, deprecated, rng=None, style=0,
                 toolbox=None):
        self.std, self.dep = dict(standardized), dict(deprecated)
        # branch -> files (the copy of the conventions in the SOFA toolbox)
        self.toolbox = toolbox or {}
        self.style = style
        self.rng = rng
        self.faults = {}
        self.log = []
        self.unknown = []

    # ------------------------------------------------------------- content
    def page(self, folder, files):
        order = sorted(files)
        if self.rng is not None and self.style % 2:
            self.rng.shuffle(order)

        def href(n):
            return [n, folder + n, f"https://{HOST}{folder}{n}", "./" + n][
                self.style % 4]
        rows = []
        for n in order:
            # (files in other formats are offered, too)
            rows.append(f'<tr><td><a href="{href(n)}">{n}</a></td>'
                        '<td align="right">2023-01-17 12:00</td></tr>')
            if sum(n.encode()) % 3 == 0:
                m = n[:-4] + [".xlsx", ".txt", ".csv.bak"][len(n) % 3]
                rows.append(f'<tr><td><a href="{href(m)}">{m}</a></td></tr>')
        head = ('<a href="?C=N;O=D">Name</a> <a href="?C=M;O=A">Last</a>'
                '<a href="/">Parent Directory</a>')
        if folder == BASE:
            head += '<a href="deprecated/">deprecated/</a>'
        return ("<!DOCTYPE HTML><html><head><title>Index of "
                f"{folder}</title></head><body><h1>Index</h1><table>{head}"
                + "\n".join(rows) + "</table></body></html>").encode()

    def lookup(self, path):
        path = re.sub("/+", "/", unquote(path))
        if path == BASE or path + "/" == BASE:
            return BASE, self.page(BASE, self.std), "text/html"
        if path == DEP or path + "/" == DEP:
            return DEP, self.page(DEP, self.dep), "text/html"
        for folder, files in ((DEP, self.dep), (BASE, self.std)):
            if path.startswith(folder) and path[len(folder):] in files:
                return path, files[path[len(folder):]], "text/csv"
        return path, None, None

    def lookup_toolbox(self, host, path):
        path = re.sub("/+", "/", unquote(path))
        for branch, files in self.toolbox.items():
            top = f"/{TOOLBOX}/" + (f"tree/{branch}" if host == GIT
                                    else branch) + f"/{SUB}"
            if not path.startswith(top):
                continue
            path = path[len(top):]
            name = f"{host}:{branch}:{path.strip('/')}"
            if host == GIT and path in ("", "/"):
                return name, self.git_page(branch, files), "text/html"
            if host == RAW and path[1:] in files and path[:1] == "/":
                return name, files[path[1:]], "text/plain"
        return host + path, None, None

    def git_page(self, branch, files):
        """The page of a folder: one list of its content as json."""
        items = [{"name": n, "path": f"{SUB}/{n}", "contentType": "file"}
                 for n in files]
        items += [{"name": "deprecated", "path": f"{SUB}/deprecated",
                   "contentType": "directory"},
                  {"name": "Readme.md", "path": f"{SUB}/Readme.md",
                   "contentType": "file"}]
        if self.rng is not None and self.style % 2:
            self.rng.shuffle(items)
        tree = {"payload": {"path": SUB, "refInfo": {"name": branch},
                            "tree": {"items": items,
                                     "totalCount": len(items)}}}
        text = json.dumps(tree, separators=(",", ":"))
        return ("<!DOCTYPE html><html lang=\"en\"><head><title>SOFAtoolbox/"
                f"{SUB} at {branch}</title></head><body><a href=\"#start\">x"
                "</a><script type=\"application/json\" data-target="
                f"\"react-app.embeddedData\">{text}</script></body></html>"
                ).encode()

    # ----------------------------------------------------------- transport
    def send(self, adapter, request, **kw):
        u = urlsplit(request.url)
        if u.hostname == HOST:
            path, body, mime = self.lookup(u.path)
        elif self.toolbox and u.hostname in (GIT, RAW):
            path, body, mime = self.lookup_toolbox(u.hostname, u.path)
        else:
            self.unknown.append(request.url)
            raise requests.exceptions.ConnectionError("unknown host",
                                                      request=request)
        fault = self.faults.get(path)
        self.log.append((path, fault))
        E = requests.exceptions
        if fault in CONNECT:
            exc = {"connect timeout": E.ConnectTimeout,
                   "read timeout": E.ReadTimeout,
                   "ssl error": E.SSLError}.get(fault, E.ConnectionError)
            raise exc(fault, request=request)
        status, headers = 200, {"Content-Type": mime or "text/html"}
        if fault in STATUS:
            status, mime = fault, "text/html"
            # error pages come with various texts
            if self.style % 3 == 0 and body is not None:
                pass
            elif self.style % 3 == 1:
                body = b"<html><body>Error</body></html>"
            else:
                body = b""
        elif body is None:
            self.unknown.append(request.url)
            status, body = 404, b"<html>not found</html>"
        headers["Content-Length"] = str(len(body))
        raw = io.BytesIO(body)
        if fault in TRANSFER:
            half = body[:len(body) // 2]
            if fault == "short body":
                raw = _HttpBody(half, len(body))
            elif fault == "timeout in body":
                raw = io.BufferedReader(_Broken(half, TimeoutError("slow")))
            elif fault == "reset in body":
                raw = io.BufferedReader(_Broken(
                    half, ConnectionResetError(104, "reset")))
            else:
                headers["Content-Encoding"] = "gzip"
        resp = urllib3.HTTPResponse(
            body=raw, headers=headers, status=status, preload_content=False,
            reason=http.client.responses.get(status, "I'm a teapot"),
            enforce_content_length=True, request_method=request.method)
        r = adapter.build_response(request, resp)
        if not kw.get("stream"):
            r.content
        return r

    @contextlib.contextmanager
    def online(self, answer=None, tmp=None):
        """Serve all requests of this process; ``answer`` is typed."""
        old = requests.adapters.HTTPAdapter.send
        old_in, old_tmp = sys.stdin, tempfile.tempdir
        env = os.environ.get("TMPDIR")
        server = self

        def send(adapter, request, **kw):
            return server.send(adapter, request, **kw)
        requests.adapters.HTTPAdapter.send = send
        sys.stdin = Typed("" if answer is None else answer + "\n")
        if tmp is not None:
            tempfile.tempdir = tmp
            os.environ["TMPDIR"] = tmp
        try:
            yield sys.stdin
        finally:
            requests.adapters.HTTPAdapter.send = old
            sys.stdin, tempfile.tempdir = old_in, old_tmp
            if env is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = env


class Typed(io.StringIO):
    """Standard input that remembers if something asked for it."""

    asked = False

    def readline(self, *a):
        self.asked = True
        return super().readline(*a)

    def read(self, *a):
        self.asked = True
        return super().read(*a)


class _HttpBody(io.RawIOBase):
    """A body that ends before its announced length."""

    def __init__(self, data, length):
        self.data = io.BytesIO(data)

    def readable(self):
        return True

    def readinto(self, b):
        return self.data.readinto(b)


# ------------------------------------------------------------------ catalogue
def normal(data):
    """Content of a table up to line endings and trailing tabs."""
    lines = data.replace(b"\r\n", b"\n").split(b"\n")
    return b"\n".join(x.rstrip(b"\t") for x in lines)


def snapshot(folder):
    """All files below a folder with their bytes (and the folders)."""
    out = {}
    for d, dirs, files in os.walk(folder):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fid:
                out[os.path.relpath(p, folder)] = fid.read()
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), folder) + os.sep] = None
    return out

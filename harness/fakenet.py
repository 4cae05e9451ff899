"""A stand-in for the network: requests.get never leaves the process.

Replies are scripted per URL: a queue of replies, the last one repeated.  A reply is
["ok", content] | ["status", code, body] | ["conn"] | ["timeout"] | ["break", content, n, kind].
"""
import io
from unittest import mock
import requests
from requests.adapters import HTTPAdapter


class Crash(BaseException):
    """The process dies here."""


class Raw(io.RawIOBase):
    def __init__(self, data, fail_at=None, exc=None, step=700):
        self.data, self.pos, self.fail_at, self.exc, self.step = data, 0, fail_at, exc, step

    def readable(self):
        return True

    def read(self, n=-1, **kw):
        end = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + min(n, self.step))
        if self.fail_at is not None and end >= self.fail_at:
            if self.pos >= self.fail_at:
                raise self.exc
            end = self.fail_at
        out = self.data[self.pos:end]
        self.pos = end
        return out

    def release_conn(self):
        pass


class Net:
    def __init__(self):
        self.script, self.log, self.default = {}, [], ["status", 404, b"not found"]

    def serve(self, url, *replies):
        self.script[url] = [list(r) for r in replies]

    def send(self, adapter, request, **kw):
        url = request.url
        self.log.append(url)
        q = self.script.get(url)
        r = self.default if not q else (q.pop(0) if len(q) > 1 else q[0])
        if r[0] == "conn":
            raise requests.exceptions.ConnectionError("connection refused")
        if r[0] == "timeout":
            raise requests.exceptions.ConnectTimeout("timed out")
        resp = requests.models.Response()
        resp.url, resp.request = url, request
        if r[0] == "ok":
            resp.status_code, body = 200, r[1]
            resp.raw = Raw(body)
        elif r[0] == "status":
            resp.status_code, body = r[1], r[2]
            resp.raw = Raw(body)
        else:
            exc = {"chunk": requests.exceptions.ChunkedEncodingError("connection broken"),
                   "conn": requests.exceptions.ConnectionError("read timed out"),
                   "os": OSError("no space left on device"), "crash": Crash()}[r[3]]
            resp.status_code, body = 200, r[1]
            resp.raw = Raw(body, r[2], exc)
        resp.headers["Content-Length"] = str(len(body))
        resp.reason = "OK" if resp.status_code == 200 else "error"
        return resp

    def __enter__(self):
        net = self
        self.p = mock.patch.object(HTTPAdapter, "send", lambda self_, request, **kw: net.send(self_, request, **kw))
        self.p.start()
        return self

    def __exit__(self, *a):
        self.p.stop()

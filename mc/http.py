"""The mesh sidecar: every HTTP request of the `requests` library ends here instead of on the network."""
import json as _json

from . import sched as S


class Recorded(object):
    __slots__ = ("method", "url", "path", "body", "json", "headers", "answered")

    def __init__(self, prep):
        from urllib.parse import urlsplit
        self.method, self.url = prep.method, prep.url
        self.path = urlsplit(prep.url).path
        b = prep.body
        self.body = b.encode() if isinstance(b, str) else b
        try:
            self.json = _json.loads(self.body) if self.body else None
        except ValueError:
            self.json = None
        self.headers = dict(prep.headers)
        self.answered = None

    def __repr__(self):
        return "%s %s %s" % (self.method, self.url, self.body)


class Answer(object):
    def __init__(self, status=200, body=b'{"success": true}', ctype="application/json", headers=None):
        self.status, self.body, self.ctype, self.headers = status, body, ctype, headers or {}


OK = Answer()
_raw_cls = []


def install():
    import requests
    import requests.adapters
    from requests.models import Response
    import io

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        s = S.CUR
        rec = Recorded(request)
        if s is None:
            raise requests.ConnectionError("no network")
        h = getattr(s, "http", None)
        log = s.__dict__.setdefault("http_log", [])
        s.point("http:" + rec.path)
        log.append(rec)
        a = h(rec) if h else None
        rec.answered = a
        s.point("http-answer:" + rec.path)
        if a is None:
            raise requests.ConnectionError("mesh sidecar does not answer", request=request)
        if isinstance(a, BaseException):
            raise a
        r = Response()
        r.status_code = a.status
        r.headers = requests.structures.CaseInsensitiveDict(a.headers)
        r.headers.setdefault("Content-Type", a.ctype)
        r.encoding = "utf-8" if "json" in a.ctype else None
        r.raw = io.BytesIO(a.body)
        r.url = request.url
        r.request = request
        r.connection = self
        r.reason = str(a.status)
        r._content = a.body
        r._content_consumed = True
        return r
    requests.adapters.HTTPAdapter.send = send

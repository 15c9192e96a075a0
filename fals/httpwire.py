"""A stand-in for the network: every HTTP request of the code under test ends here."""
import contextlib
import os
for _k in list(os.environ):
    if _k.lower() in ("requests_ca_bundle", "curl_ca_bundle", "http_proxy", "https_proxy", "all_proxy", "no_proxy", "netrc"):
        del os.environ[_k]
import requests
import requests.adapters
from urllib.parse import urlsplit, parse_qsl
from requests.structures import CaseInsensitiveDict


class Wire:
    def __init__(self):
        self.log = []
        self.answer = (200, "text/plain", b"")

    def send(self, adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        body = request.body
        if hasattr(body, "read"):
            body = body.read()
        if isinstance(body, str):
            body = body.encode("utf-8")
        self.log.append(dict(method=request.method, url=request.url, body=body or b"", headers=request.headers, verify=verify))
        r = requests.Response()
        st, ct, content = self.answer
        r.status_code = st
        r.headers = CaseInsensitiveDict({"Content-Type": ct} if ct is not None else {})
        r._content = content
        r._content_consumed = True
        r.url = request.url
        r.request = request
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        r.reason = "x"
        return r


@contextlib.contextmanager
def wire():
    w = Wire()
    old = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = lambda self, request, **k: w.send(self, request, **k)
    try:
        yield w
    finally:
        requests.adapters.HTTPAdapter.send = old


def pairs(q):
    return sorted(parse_qsl(q, keep_blank_values=True, strict_parsing=bool(q)))


def split(url):
    u = urlsplit(url)
    return (u.scheme + "://" + u.netloc + u.path, pairs(u.query))

"""Assumed contracts of library functions outside /repo (each is part of the trusted base)."""
import io
import json
import logging
import urllib.parse
import z3
from pyvc import terms as T
from pyvc.terms import U, STR, conj
from pyvc.values import *
from pyvc.strings import EncV

quote_plus_f = z3.Function("quote_plus", STR, STR)
urljoin_f = z3.Function("urljoin", STR, STR, STR)


def _log(E, a, k):
    return None


def _quote_plus(E, a, k):
    if len(a) != 1 or k:
        raise Unsupported("quote_plus with options")
    if isinstance(a[0], str):
        return urllib.parse.quote_plus(a[0])
    return sv(quote_plus_f(E.zstr(a[0])))


def _urlencode(E, a, k):
    from pyvc import strings
    if k or len(a) != 1:
        raise Unsupported("urlencode with options")
    items = None
    if isinstance(a[0], DictV):
        items = list(a[0].d.items())
    elif isinstance(a[0], (ListV, TupV)):
        items = [(s.elem.items[0], s.elem.items[1]) for s in E.segments(a[0])]
    if items is None:
        raise Unsupported("urlencode argument")
    parts = []
    for i, (n, v) in enumerate(items):
        if i:
            parts.append("&")
        parts += [_quote_plus(E, [n], {}), "=", _quote_plus(E, [v], {})]
    return strings.concat(E, parts)


def _urljoin(E, a, k):
    if len(a) != 2 or k:
        raise Unsupported("urljoin with options")
    if all(isinstance(x, str) for x in a):
        return urllib.parse.urljoin(*a)
    return sv(urljoin_f(E.zstr(a[0]), E.zstr(a[1])))


class BytesIOV(Val):
    cls = io.BytesIO

    def __init__(self, content):
        self.content = content

    def __repr__(self):
        return f"BytesIO({self.content!r})"


def install(E):
    for n in ("debug", "info", "warning", "error", "exception", "critical", "log"):
        E.contracts[getattr(logging.Logger, n)] = _log
    E.contracts[urllib.parse.quote_plus] = _quote_plus
    E.contracts[urllib.parse.urlencode] = _urlencode
    E.contracts[urllib.parse.urljoin] = _urljoin
    E.contracts[json.loads] = lambda E, a, k: OpaqueV("json", attrs={"$of": a[0], "$truth": True})
    E.contracts[io.BytesIO] = lambda E, a, k: BytesIOV(a[0] if a else b"")


NOTES = ["requests.Session sends exactly one HTTP request per call, from its arguments as documented",
         "urllib.parse.quote_plus, urlencode, urljoin, json.loads, lxml.objectify.parse, rdflib graph parsing/serialization behave as documented (uninterpreted functions)",
         "logging has no effect on behaviour"]

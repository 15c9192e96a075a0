"""Shared helpers of the concrete replays (run with the project's own interpreter against /repo/src)."""
import ast
import glob
import os
import random
import string as _string

REPO = os.environ.get("VERIF_REPO", "/repo") + "/src/pymantic"


class Fail(Exception):
    """the running code contradicts the contract"""


def expect(cond, msg, *vals):
    if not cond:
        raise Fail(msg + ("" if not vals else ": " + ", ".join(safe_repr(v) for v in vals)))


def safe_repr(v, n=300):
    try:
        r = repr(v)
    except Exception as e:  # noqa
        r = f"<{type(v).__name__} (repr failed: {type(e).__name__})>"
    return r if len(r) <= n else r[:n] + "..."


class Env:
    """decodes case data into RDF terms; blank nodes by number, alive for the whole case"""

    def __init__(self):
        from pymantic import primitives as P
        self.P = P
        self.b = {}

    def term(self, d):
        P = self.P
        if d is None:
            return None
        k = d[0]
        if k == "n":
            return P.NamedNode(d[1])
        if k == "b":
            if d[1] not in self.b:
                self.b[d[1]] = P.BlankNode()
            return self.b[d[1]]
        if k == "l":
            lang = d[2] if len(d) > 2 else None
            dt = d[3] if len(d) > 3 else None
            return P.Literal(d[1], lang, P.NamedNode(dt) if dt is not None else None)
        if k == "s":
            return d[1]
        raise ValueError(d)

    def triple(self, d):
        return self.P.Triple(*[self.term(x) for x in d])

    def quad(self, d):
        return self.P.Quad(*[self.term(x) for x in d])


# ---- constants of the current source (inputs a special case in the code would be keyed on) -----------

_mined = None


def mined():
    global _mined
    if _mined is None:
        ss, ns = set(), set()
        for f in glob.glob(REPO + "/**/*.py", recursive=True):
            try:
                tree = ast.parse(open(f, encoding="utf-8").read())
            except SyntaxError:
                continue
            docs = set()
            for n in ast.walk(tree):
                if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and \
                        isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                    docs.add(id(n.body[0].value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    if isinstance(n.value, str) and len(n.value) <= 60:
                        ss.add(n.value)
                    elif isinstance(n.value, bytes) and len(n.value) <= 60:
                        ss.add(n.value.decode("latin-1"))
                    elif isinstance(n.value, int) and not isinstance(n.value, bool):
                        ns.add(n.value)
        _mined = (sorted(ss), sorted(ns))
    return _mined


def mined_strings():
    return mined()[0]


def mined_ints():
    return mined()[1]


def big_sizes(most=1500):
    """sizes around the integer constants of the code, and a few that no constant names"""
    return sorted({n + d for n in mined_ints() if 8 < n <= most for d in (0, 1, 2)} | {x for x in (33, 70, 130, 300) if x <= most})


def mined_chars():
    out = set()
    for s in mined_strings():
        out.update(s)
    for n in mined_ints():
        for k in (n - 1, n, n + 1):
            if 0 <= k <= 0x10FFFF:
                out.add(chr(k))
    return sorted(out)


CTRL = "".join(chr(i) for i in range(32)) + "\x7f\x80\x85\x9f\xa0\u2028\u2029"
SPECIAL = CTRL + '"\\\'<>{}|^`%#?/:@&=+$,;!*()[].-_~ ' + "aZ09tnru" + \
    "\u00c0\u00d7\u00e9\u00ff\u0100\u02ff\u0300\u036f\u037e\u2000\u200c\u203f\u2070\u218f\u2c00\u3001\ud7ff" + \
    "\ue000\uf900\ufdcf\ufdf0\ufffd\uffff\U00010000\U0001F600\U000effff\U0010ffff"


def rand_char(r, surrogates=False):
    k = r.random()
    if k < 0.35:
        return r.choice(SPECIAL)
    if k < 0.5:
        c = r.choice(mined_chars())
    elif k < 0.7:
        c = chr(r.randrange(32, 127))
    elif k < 0.85:
        c = chr(r.randrange(0, 0x3000))
    else:
        c = chr(r.randrange(0, 0x110000))
    if 0xD800 <= ord(c) <= 0xDFFF and not surrogates:
        return "x"
    return c


def near(r, s):
    """a string easily mistaken for the given one"""
    k = r.randrange(8)
    i = r.randrange(len(s)) if s else 0
    if k == 0:
        return s.swapcase() if s.swapcase().swapcase() == s else s
    if k == 1:
        return s[:i] + (s[i:i + 1].swapcase() if len(s[i:i + 1].swapcase()) == 1 else s[i:i + 1]) + s[i + 1:]
    if k == 2:
        return s + s[-1:]
    if k == 3:
        return s[:-1]
    if k == 4:
        import unicodedata
        f = unicodedata.normalize(r.choice(["NFC", "NFD", "NFKC"]), s)
        return f if f != s else s[:i] + s[i + 1:]
    if k == 5:
        return s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]
    if k == 6:
        return s[1:]
    return s + r.choice("/0aA")


def remembered(r, kind, s):
    """now and then a near repetition of an earlier string of the kind instead"""
    old = r.__dict__.setdefault("_recent_" + kind, [])
    if old and r.random() < 0.15:
        return near(r, r.choice(old)) if r.random() < 0.85 else r.choice(old)
    old.append(s)
    del old[:-4]
    return s


def rand_str(r, maxlen=8, surrogates=False):
    s = remembered(r, "str", _rand_str(r, maxlen, surrogates))
    return s if surrogates else nosur(s)


def _rand_str(r, maxlen, surrogates):
    k = r.random()
    if k < 0.08:
        s = r.choice(mined_strings())
        return s if surrogates else nosur(s)
    if k < 0.12:
        n = r.choice([x for x in mined_ints() if 0 <= x <= 300] or [1]) + r.randrange(-1, 2)
        return "".join(rand_char(r, surrogates) for _ in range(max(0, n)))
    return "".join(rand_char(r, surrogates) for _ in range(r.randrange(0, maxlen + 1)))


def nosur(s):
    return "".join("x" if 0xD800 <= ord(c) <= 0xDFFF else c for c in s)


IRI_OK_ASCII = "".join(c for c in map(chr, range(33, 127)) if c not in '<>"{}|^`\\')


def rand_iri(r, ascii_only=False, maxlen=8):
    s = _rand_iri(r, ascii_only, maxlen)
    t = remembered(r, "iri%d" % bool(ascii_only), s)
    import re
    legal = re.fullmatch(r"(http://[a-z.]+/|urn:x:|mailto:|tag:x,2000:).*", t) and not re.search("%(?![0-9A-Fa-f]{2})", t) and t.count("#") <= max(1, s.count("#"))
    return t if legal and not any(unusual(c) for c in t) else s


def unusual(c):
    """not surely legal in an IRI"""
    o = ord(c)
    return c not in IRI_OK_ASCII if o < 0x80 else (o < 0xA0 or 0xE000 <= o <= 0xF8FF or 0xFDD0 <= o <= 0xFDEF or (o & 0xFFFE) == 0xFFFE or o >= 0xE0000 or 0xFFF0 <= o < 0x10000)


def _rand_iri(r, ascii_only, maxlen):
    """a legal absolute IRI"""
    base = r.choice(["http://a/", "http://example.org/ns#", "urn:x:", "http://a/b/c?q=", "mailto:", "tag:x,2000:",
                     "http://www.w3.org/2001/XMLSchema#", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"])
    n = r.randrange(0, maxlen)
    out = []
    for _ in range(n):
        if ascii_only or r.random() < 0.8:
            c = r.choice(IRI_OK_ASCII)
            if c == "%":
                c = "%" + "%02X" % r.randrange(256)
            elif c in "[]#" and r.random() < 0.9:
                c = "x"
            out.append(c)
        else:
            c = rand_char(r)
            if ord(c) < 0xA0 or 0xE000 <= ord(c) <= 0xF8FF or 0xFDD0 <= ord(c) <= 0xFDEF or (ord(c) & 0xFFFE) == 0xFFFE \
                    or ord(c) >= 0xE0000 or ord(c) in range(0xFFF0, 0x10000):
                c = "\u00e9"
            out.append(c)
    return base + "".join(out)


LANGS = ["en", "en-us", "en-gb", "fr", "de", "zh-hans-cn", "x", "a-b-c", "de-1996", "EN", "En-Us", "sl-rozaj-biske-1994", "e"]


def term_pool(r, k=4):
    """small pool of subject/predicate/object data with shared terms across positions"""
    ns = [("n", "http://a/x"), ("n", "http://a/y"), ("n", "http://a/X"), ("n", ""), ("b", 0), ("b", 1),
          ("n", "http://a/" + r.choice("abcdefgh")), ("n", rand_iri(r))]
    ls = [("l", "", None, None), ("l", "v", None, None), ("l", "V", None, None), ("l", "v", "en", None), ("l", "v", "EN", None), ("l", "v", None, "http://a/x"),
          ("l", "http://a/x", None, None), ("l", rand_str(r, 4), r.choice([None] + LANGS), None)]
    return r.sample(ns, min(k, len(ns))), r.sample(ls, min(max(1, k - 1), len(ls)))


def norm_triples(ts):
    return {tuple(t) for t in ts}


def kind_eq(a, b):
    """equal and of the same term kind"""
    return a == b and type(a) is type(b)


def iso(g1, g2):
    """graph isomorphism of two iterables of tuples of terms, up to blank nodes"""
    from pymantic.primitives import BlankNode
    def plain(x):
        # str subclasses inside a literal (tokens of the parser) count as what they equal
        if type(x).__name__ == "Literal":
            return type(x)._make([str.__str__(c) if isinstance(c, str) and type(c).__name__ == "Token" else c for c in x])
        return x
    g1, g2 = list({tuple(map(plain, t)) for t in g1}), list({tuple(map(plain, t)) for t in g2})
    if len(g1) != len(g2):
        return False

    def bns(g):
        return list({x for t in g for x in t if isinstance(x, BlankNode)})
    b1, b2 = bns(g1), bns(g2)
    if len(b1) != len(b2):
        return False

    # fixed number of rounds on both sides
    import hashlib

    def touching(g):
        at = {}
        for t in g:
            for b in {x for x in t if isinstance(x, BlankNode)}:
                at.setdefault(b, []).append(t)
        return at

    def rounds(g, bs, n):
        col = {b: "0" for b in bs}
        at = touching(g)
        for _ in range(n):
            new = {}
            for b in bs:
                sig = [repr(tuple(("*" if x is b else col[x]) if isinstance(x, BlankNode) else (type(x).__name__, x)
                                  for x in t)) for t in at.get(b, ())]
                new[b] = hashlib.md5(repr(sorted(sig)).encode("utf-8", "surrogatepass")).hexdigest()
            col = new
        return col
    n = min(len(b1) + 1, 8)
    c1, c2 = rounds(g1, b1, n), rounds(g2, b2, n)
    if sorted(c1.values()) != sorted(c2.values()):
        return False
    set2 = {tuple(id(x) if isinstance(x, BlankNode) else (type(x).__name__, x) for x in t) for t in g2}

    def full(m):
        for t in g1:
            if tuple(id(m[x]) if isinstance(x, BlankNode) else (type(x).__name__, x) for x in t) not in set2:
                return False
        return True
    order = sorted(b1, key=lambda b: (list(c1.values()).count(c1[b]), c1[b]))
    used = set()
    budget = [20000]
    at1 = touching(g1)

    def go(i, m):
        if budget[0] <= 0:
            return True
        budget[0] -= 1
        if i == len(order):
            return full(m)
        b = order[i]
        for c in b2:
            if id(c) not in used and c2[c] == c1[b]:
                used.add(id(c))
                m[b] = c
                ok = True
                for t in at1.get(b, ()):
                    if all((x in m) for x in t if isinstance(x, BlankNode)):
                        if tuple(id(m[x]) if isinstance(x, BlankNode) else (type(x).__name__, x) for x in t) not in set2:
                            ok = False
                            break
                if ok and go(i + 1, m):
                    return True
                used.discard(id(c))
                del m[b]
        return False
    return go(0, {})

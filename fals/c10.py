"""C10: Turtle terms. A case is a list of directives and statements about terms written in a chosen way."""
from urllib.parse import urljoin

from .lib import *

XSD = "http://www.w3.org/2001/XMLSchema#"
ILLEGAL = set(map(chr, range(0x21))) | set('<>"{}|^`\\')
ECH = {"\t": "t", "\b": "b", "\n": "n", "\r": "r", "\f": "f", '"': '"', "'": "'", "\\": "\\"}
QUOTES = ['"', "'", '"""', "'''"]


def resolve(base, ref):
    j = urljoin(base, ref)
    return j + "#" if ref.endswith("#") and not j.endswith("#") else j


def uchar(c, mode):
    n = ord(c)
    h = "%04X" % n if mode & 1 else "%04x" % n
    if n <= 0xFFFF and not mode & 2:
        return "\\u" + h
    return "\\U" + ("%08X" % n if mode & 1 else "%08x" % n)


def write_string(v, q, modes):
    """modes: one number per character: 0 raw if possible, 4 named escape if any, else code point escape"""
    out = []
    raw = 0
    for i, c in enumerate(v):
        m = modes[i % len(modes)] if modes else 0
        can_raw = c != "\\" and not (len(q) == 1 and (c in "\n\r" or c == q))
        if len(q) == 3 and c == q[0] and (raw == 2 or i == len(v) - 1):
            can_raw = False
        if m == 0 and can_raw:
            out.append(c)
            raw = raw + 1 if c == q[0] else 0
            continue
        raw = 0
        if (m == 4 or m == 0) and c in ECH:
            out.append("\\" + ECH[c])
        else:
            out.append(uchar(c, m))
    return q + "".join(out) + q


def write_iri(v, modes):
    return "<" + "".join(uchar(c, m) if (m := (modes[i % len(modes)] if modes else 0)) or c in ILLEGAL else c for i, c in enumerate(v)) + ">"


LOCAL_ESC = "_~.-!$&'()*+,;=/?#@%"


def write_local(v, modes):
    """a local name; %XX stays, the punctuation characters are escaped"""
    out = []
    i = 0
    while i < len(v):
        c = v[i]
        m = modes[i % len(modes)] if modes else 0
        if c == "%" and i + 2 < len(v) and all(x in "0123456789abcdefABCDEF" for x in v[i + 1:i + 3]) and not m:
            out.append(v[i:i + 3])
            i += 3
            continue
        if c in LOCAL_ESC and not (c == "_" and not m) and not (c in "-." and not m and 0 < i < len(v) - 1):
            out.append("\\" + c)
        else:
            out.append(c)
        i += 1
    return "".join(out)


def render(items):
    """text and list of expected objects (None: the document must be refused)"""
    from pymantic import primitives as P
    N = P.NamedNode
    text, want = [], []
    base, prefixes = None, {}
    ok = True

    def iri(t, cur):
        nonlocal ok
        if t[0] == "iri":
            if any(c in ILLEGAL for c in t[1]):
                ok = False
            return write_iri(t[1], t[2]), N(resolve(cur or "", t[1]))
        if t[1] not in prefixes:
            ok = False
        return t[1] + ":" + write_local(t[2], t[3]), N(prefixes.get(t[1], "") + t[2])
    for it in items:
        k = it[0]
        if k == "base":
            if any(c in ILLEGAL for c in it[1]):
                ok = False
            w = write_iri(it[1], it[2])
            text.append("@base %s .\n" % w if it[3] == 0 else "%s %s\n" % (["", "BASE", "base", "Base"][it[3]], w))
            base = resolve(base or "", it[1])
        elif k == "prefix":
            if any(c in ILLEGAL for c in it[2]):
                ok = False
            w = write_iri(it[2], it[3])
            text.append("@prefix %s: %s .\n" % (it[1], w) if it[4] == 0 else "%s %s: %s\n" % (["", "PREFIX", "prefix", "Prefix"][it[4]], it[1], w))
            prefixes[it[1]] = resolve(base or "", it[2])
        else:
            t = it[1]
            if t[0] in ("iri", "pn"):
                w, o = iri(t, base)
            elif t[0] == "str":
                w = write_string(t[1], t[2], t[3])
                if t[4] is None:
                    o = P.Literal(t[1], None, N(XSD + "string"))
                elif t[4][0] == "lang":
                    w, o = w + "@" + t[4][1], P.Literal(t[1], t[4][1], None)
                else:
                    dw, dt = iri(t[4], base)
                    w, o = w + "^^" + dw, P.Literal(t[1], None, dt)
            elif t[0] == "num":
                w, o = t[1], P.Literal(t[1], None, N(XSD + t[2]))
            else:
                w, o = t[1], P.Literal(t[1], None, N(XSD + "boolean"))
            n = len(want)
            if k == "o":
                text.append("<http://s/%d> <http://p/> %s .\n" % (n, w))
                want.append((N("http://s/%d" % n), N("http://p/"), o))
            elif k == "s":
                text.append("%s <http://p/%d> <http://o/> .\n" % (w, n))
                want.append((o, N("http://p/%d" % n), N("http://o/")))
            else:
                text.append("<http://s/%d> %s <http://o/> .\n" % (n, w))
                want.append((N("http://s/%d" % n), o, N("http://o/")))
    return "".join(text), want if ok else None


def execute(case):
    items, how = case
    from pymantic import primitives as P
    from pymantic.parsers import turtle_parser
    import io
    text, want = render(items)

    def parse():
        if how == 1:
            return turtle_parser.parse_string(text.encode("utf-8", "surrogatepass") if not any(0xD800 <= ord(c) <= 0xDFFF for c in text) else text)
        if how == 2:
            return turtle_parser.parse(io.StringIO(text, newline=""))
        if how == 3:
            return turtle_parser.parse(io.BytesIO(text.encode("utf-8"))) if not any(0xD800 <= ord(c) <= 0xDFFF for c in text) else turtle_parser.parse(text)
        return turtle_parser.parse(text)
    if want is None:
        try:
            g = parse()
        except Exception:  # noqa
            return
        raise Fail(f"{text!r} should be refused, gave {safe_repr(list(g))}")
    try:
        g = parse()
    except Exception as e:  # noqa
        raise Fail(f"the parser does not accept {text!r}: {type(e).__name__}: {str(e)[:200]}")
    got = [tuple(t) for t in g]
    for t in got:
        for c in t:
            if isinstance(c, P.Literal):
                expect(c.datatype is None or isinstance(c.datatype, P.NamedNode), f"{text!r}: the datatype is a node", c)
            else:
                expect(isinstance(c, P.NamedNode), f"{text!r}: the term is a node", c)
    expect(set(got) == set(want), f"{text!r} should give {want!r}", got)


REFS = ["", "#", "x", "x#", "#f", "?q", "/y", "//h/z", "http://b/", "http://b/c#", "../u", "./v", "urn:q:", "a/b/c", "x?y#z", "..", "mailto:a@b", "HTTP://B/x", "\u00e9/", "%41", "x:y",
        "http://b", "//h", "?", ";", "x/../y", "http://b/c?d=e&f"]
PNS = ["", "a", "ex", "e-x", "e.x", "true", "prefix", "base", "\u00e9", "PREFIX", "a1", "e_"]
LOCALS = ["", "a", "1", "x.y", "a-b", "_x", "a:b", ":", "%41", "%2F", "x~", "a/b", "a?b#c", "(x)", "\u00e9", "\u0300x"[1:], "a.", ".a", "a_b", "-a", "@x", "a%20b", "\U00010000", "a\u00b7b", "a,b;c", "e5", "true", "'q'", "$&+=*!"]
NUMS = [("integer", "0 1 -1 +1 007 12345678901234567890".split()), ("decimal", "1.0 -1.5 +.5 .0 00.10".split()), ("double", "1e0 1.e5 .5E-3 -1.5e+10 +7E7 0e0".split())]


def rand_modes(r):
    return r.choice([(0,), (0,), (1,), (2,), (3,), (4,), tuple(r.choice([0, 1, 2, 3, 4]) for _ in range(5)), (0, 0, r.choice([1, 2, 3]))])


def rand_ref(r):
    k = r.random()
    if k < 0.7:
        s = r.choice(REFS)
    elif k < 0.85:
        s = rand_iri(r)
    else:
        s = r.choice(REFS) + "".join(r.choice(["a", "\u00e9", "%20", "/", "-", "\U0001F600"]) for _ in range(2))
    if r.random() < 0.06:
        i = r.randrange(len(s) + 1)
        s = s[:i] + r.choice(sorted(ILLEGAL)) + s[i:]
    return s


def rand_term(r, known, obj=True):
    k = r.random()
    if not obj or k < 0.4:
        if r.random() < 0.5 and known:
            p = r.choice(known) if r.random() < 0.96 else "undeclared"
            return ("pn", p, r.choice(LOCALS), r.choice([(0,), (0,), (1,)]))
        return ("iri", rand_ref(r), r.choice([(0,), (0,), (1,), (2,), (3,), (0, 0, 3)]))
    if k < 0.8:
        x = r.choice([None, None, ("lang", r.choice(LANGS)), "dt"])
        if x == "dt":
            x = rand_term(r, known, False)
        return ("str", rand_str(r, 7, surrogates=False), r.choice(QUOTES), rand_modes(r), x)
    if k < 0.93:
        ty, vs = r.choice(NUMS)
        return ("num", r.choice(vs), ty)
    return ("bool", r.choice(["true", "false"]))


def fixed():
    for q in QUOTES:
        for i in list(range(0x100)) + [0x2028, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xd7ff, 0xe000]:
            yield (tuple(("o", ("str", a + chr(i) + b, q, (m,), None)) for m in (0, 1, 2, 3, 4) for a, b in (("", ""), ("a", "b"))), i % 4)
        for v in ("", "a", "\\", "\\\\", "\\n", "\\u0041", "\\\\u0041", "'", '"', "''", '""', "'''", '"""', "a'", 'a"', "'a'", '"a"', "\n", "a\r\nb", "tnrbfuU", "\\t\t", "x^^y", "@en", "u0041", "\\U00000041", "'''\"\"\""):
            for m in ((0,), (1,), (2,), (4,), (0, 4), (4, 0)):
                yield ((("o", ("str", v, q, m, None)), ("o", ("str", v, q, m, ("lang", "en-us"))), ("o", ("str", v, q, m, ("iri", "http://d/#t", (0,))))), 0)
    for n in big_sizes(400):
        for q in QUOTES:
            yield ((("o", ("str", "a" * n + "\n\"'\\" + "\u00e9" * n, q, (0, 1, 0, 2, 4), None)),), n % 4)
        yield ((("prefix", "e", "http://n/" + "n" * n, (0,), 0), ("o", ("pn", "e", "x", (0,))), ("o", ("iri", "http://i/" + "i" * n, (0,))), ("o", ("num", "1" * n, NUMS[0][0]))), 0)
        yield (tuple(("prefix", "e%d" % i, "http://n/%d/" % i, (0,), 0) for i in range(n)) + (("o", ("pn", "e0", "x", (0,))), ("o", ("pn", "e%d" % (n - 1), "x", (0,)))), 0)
    for l in LANGS + ["en-1", "a-b1-2c", "zh-cmn-hans-cn"]:
        yield ((("o", ("str", "v", '"', (0,), ("lang", l))),), 0)
    for ty, vs in NUMS:
        for v in vs:
            yield ((("o", ("num", v, ty)),), 0)
    for v in ("true", "false"):
        yield ((("o", ("bool", v)),), 0)
    for ref in REFS:
        for b in (None, "http://a/b/c", "http://a/b/c?q#f", "http://a/b/", "http://a", "urn:u:v", "file:///x/y", "http://a/b#"):
            pre = () if b is None else (("base", b, (0,), 0),)
            pos = ("o", "s", "p")[len(ref) % 3]
            yield (pre + ((pos, ("iri", ref, (0,))), ("o", ("iri", ref, (1,))), ("o", ("iri", ref, (2,)))), 0)
            yield (pre + (("prefix", "n", ref, (0,), 0), ("o", ("pn", "n", "x", (0,))), ("s", ("pn", "n", "", (0,)))), 1)
            yield (pre + (("base", ref, (0,), 0), ("o", ("iri", "z", (0,)))), 2)
    for c in sorted(ILLEGAL):
        for it in (("o", ("iri", "http://a/" + c, (0,))), ("o", ("iri", c, (2,))), ("base", "http://a/" + c + "b", (0,), 0), ("prefix", "p", "http://a/" + c, (0,), 1), ("s", ("iri", "x" + c + "y", (0,))),
                   ("o", ("str", "v", '"', (0,), ("iri", "d" + c, (0,))))):
            yield ((it,), 0)
    for p in PNS:
        for l in LOCALS:
            yield ((("prefix", p, "http://n/", (0,), 0), ("o", ("pn", p, l, (0,))), ("o", ("pn", p, l, (1,))), ("p", ("pn", p, l, (0,)))), 0)
    for k in (0, 1, 2, 3):
        yield ((("prefix", "e", "http://1/", (0,), k), ("o", ("pn", "e", "x", (0,))), ("prefix", "e", "http://2/", (0,), k), ("o", ("pn", "e", "x", (0,))), ("prefix", "f", "http://3/", (0,), 0), ("o", ("pn", "e", "y", (0,)))), 0)
        yield ((("base", "http://1/a/", (0,), k), ("prefix", "e", "x#", (0,), 0), ("base", "../b/", (0,), k), ("o", ("pn", "e", "y", (0,))), ("o", ("iri", "c", (0,))), ("prefix", "e", "", (0,), k), ("o", ("pn", "e", "y", (0,))), ("base", "http://2/", (0,), 0), ("o", ("iri", "", (0,)))), 0)
        yield ((("o", ("pn", "e", "x", (0,))), ("prefix", "e", "http://1/", (0,), k)), 0)
        yield ((("prefix", "e", "http://1/", (0,), k), ("o", ("pn", "E", "x", (0,)))), 0)
    yield ((("o", ("pn", "rdfs", "x", (0,))),), 0)
    yield ((("o", ("pn", "", "x", (0,))),), 0)
    yield ((("o", ("str", "v", '"', (0,), ("pn", "zz", "x", (0,)))),), 0)
    yield ((("o", ("iri", "rel", (0,))), ("base", "http://b/", (0,), 0), ("o", ("iri", "rel", (0,)))), 0)


def cases(r):
    while True:
        items = []
        known = []
        for _ in range(r.choice([1, 2, 3, 5, 8])):
            k = r.random()
            if k < 0.2:
                items.append(("base", rand_ref(r) if r.random() < 0.5 else "http://a/b/c", (0,), r.randrange(4)))
            elif k < 0.4:
                p = r.choice(PNS)
                known.append(p)
                items.append(("prefix", p, rand_ref(r), r.choice([(0,), (1,), (2,)]), r.randrange(4)))
            elif k < 0.85:
                items.append(("o", rand_term(r, known)))
            else:
                items.append((r.choice("sp"), rand_term(r, known, False)))
        yield (tuple(items), r.randrange(4))


def shrink(case):
    items, how = case
    if how:
        yield (items, 0)
    for i in range(len(items)):
        yield (items[:i] + items[i + 1:], how)
    for i, it in enumerate(items):
        if it[0] == "o" and it[1][0] == "str":
            t = it[1]
            for m in range(len(t[1])):
                yield (items[:i] + (("o", (t[0], t[1][:m] + t[1][m + 1:]) + t[2:]),) + items[i + 1:], how)
            if t[4]:
                yield (items[:i] + (("o", t[:4] + (None,)),) + items[i + 1:], how)
        if it[0] in ("o", "s", "p") and it[1][0] == "iri" and len(it[1][1]) > 1:
            t = it[1]
            for m in range(len(t[1])):
                yield (items[:i] + ((it[0], ("iri", t[1][:m] + t[1][m + 1:], t[2])),) + items[i + 1:], how)

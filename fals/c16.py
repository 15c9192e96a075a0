"""C16: Turtle output reads back."""
import io
import re

from .lib import *

XSD = "http://www.w3.org/2001/XMLSchema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
LEX = {XSD + "integer": r"[+-]?[0-9]+", XSD + "decimal": r"[+-]?[0-9]*\.[0-9]+", XSD + "boolean": "true|false",
       XSD + "double": r"[+-]?([0-9]+\.[0-9]*|\.?[0-9]+)[eE][+-]?[0-9]+"}


def as_read(P, t):
    """a plain literal is a literal of type xsd:string"""
    return tuple(P.Literal(x.value, None, P.NamedNode(XSD + "string")) if isinstance(x, P.Literal) and not x.language
                 and x.datatype is None else x for x in t)


def quoted_typed(t):
    return any(x and x[0] == "l" and x[3] is not None and x[3] != XSD + "string" and not (x[3] in LEX and re.fullmatch(LEX[x[3]], x[1])) for x in t)


def execute(case):
    triples, prefixes, base, nopro = case
    from pymantic import primitives as P
    from pymantic.serializers import serialize_turtle
    from pymantic.parsers import turtle_parser
    env = Env()
    g = P.Graph()
    for t in triples:
        g.add(env.triple(t))
    before = {tuple(t) for t in g}
    kw = {}
    if not nopro:
        prof = P.Profile()
        for k, v in prefixes:
            prof.setPrefix(k, P.NamedNode(v))
        kw["profile"] = prof
    if base is not None:
        kw["base"] = base
    f = io.StringIO()
    serialize_turtle(g, f, **kw)
    expect({tuple(t) for t in g} == before, "writing leaves the graph as it was", g)
    text = f.getvalue()
    if any(quoted_typed(t) for t in triples):
        # known finding: such a literal is written with one ^ instead of two
        text = re.sub(r'"\^(?!\^)', '"^^', text)
    try:
        back = turtle_parser.parse(text)
    except Exception as e:  # noqa
        raise Fail(f"the parser does not accept the output {text!r}: {type(e).__name__}: {str(e)[:200]}")
    want = [as_read(P, t) for t in before]
    got = [tuple(t) for t in back]
    expect(iso(got, want), f"output {text!r} should read back as {want!r}", got)


NSS = ["http://a/", "http://a/b", "http://a/b/", "http://example.org/ns#", "urn:x:", "http://a", "tag:x,2000:", "http://a/#",
       "http://a/b/c?q=", XSD, RDF, "mailto:", "http://a/b#", "http://\u00e9/"]
PFX = ["ex", "a", "b", "p1", "foo-bar", "x.y", "true", "prefix", "base", "e", "E", "rdf", "xsd", "PREFIX", "owl", "_a", "1a", "a_"]
BASES = ["http://a/", "http://a/b", "http://a/b/", "http://a/b#", "http://a/b/c", "http://a/b/c?q=1", "http://example.org/ns#",
         "urn:x:", "http://a", "http://a/b/c/d#"]


def safe_under_base(iri, base):
    """IRIs that urllib resolves to themselves"""
    from urllib.parse import urljoin
    if base is None:
        return True
    j = urljoin(base, iri)
    return j == iri or (iri.endswith("#") and j + "#" == iri)


def rand_t_iri(r, base=None):
    k = r.random()
    if k < 0.5:
        iri = r.choice(NSS + BASES) + "".join(r.choice(["a", "B", "0", "_", "-", ".", ":", "/", "%41", "~", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", "?", "@", "\u00e9", "\u00d7", "\u0300", "\u00b7", "#"]) for _ in range(r.choice([0, 1, 1, 2, 3])))
        if iri.count("#") > 1:
            iri = iri.replace("#", "", iri.count("#") - 1)
    else:
        iri = rand_iri(r, r.random() < 0.5)
    if not safe_under_base(iri, base):
        iri = "http://a/b/x"
    return iri


def rand_lit(r, typed):
    k = r.random()
    v = rand_str(r, 8)
    if typed:
        v = v.replace("^", "")
    if k < 0.25:
        return ("l", v, r.choice(LANGS), None)
    if k < 0.5:
        dt = r.choice(list(LEX))
        form = r.choice(["0", "1", "-5", "+7", "007", "1.5", "-.5", "+0.0", "1e5", "1.E-3", ".5e+1", "2.5E10", "true", "false", "12345678901234567890"] + (["", "abc", "1.", "INF", "TRUE", "1 ", "1\n", " 1", "e5"] if typed else []))
        if not typed and not re.fullmatch(LEX[dt], form):
            dt = next(d for d in LEX if re.fullmatch(LEX[d], form))
        return ("l", form, None, dt)
    if k < 0.6 and typed:
        return ("l", v, None, r.choice(["http://a/dt", "http://a/b#d", RDF + "HTML", XSD + "dateTime"]))
    if k < 0.75:
        return ("l", v, None, XSD + "string")
    return ("l", v, None, None)


def rand_graph(r, base, typed):
    nodes = [("b", i) for i in range(4)] + [("n", rand_t_iri(r, base)) for _ in range(4)]
    preds = [("n", rand_t_iri(r, base)) for _ in range(2)] + [("n", RDF + "type")]
    for l in (nodes, preds):
        iri = l[-2][1]
        alt = near(r, iri)
        if r.random() < 0.3 and re.fullmatch("(http|mailto|urn|tag):.*", alt) and "//" in alt[4:8] + "//" * (alt[:4] != "http") and \
                not re.search("%(?![0-9A-Fa-f]{2})", alt) and alt.count("#") < 2 and not any(unusual(c) for c in alt) and safe_under_base(alt, base):
            l[-1] = ("n", alt)
    ts = []
    for _ in range(r.choice([1, 1, 2, 4, 7])):
        o = r.choice(nodes) if r.random() < 0.5 else rand_lit(r, typed)
        ts.append((r.choice(nodes), r.choice(preds), o))
    # lists
    first, rest, nil = ("n", RDF + "first"), ("n", RDF + "rest"), ("n", RDF + "nil")
    c = 10
    heads = [nil]
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        n = r.choice([1, 1, 2, 3])
        tail = nil if r.random() < 0.9 else r.choice(heads + nodes)
        for i in range(n):
            cell = ("b", c) if r.random() < 0.93 else ("n", "http://a/cell%d" % c)
            c += 1
            k = r.random()
            it = r.choice(heads) if k < 0.35 else r.choice(nodes) if k < 0.6 else rand_lit(r, typed)
            if r.random() < 0.96:
                ts.append((cell, first, it))
            ts.append((cell, rest, tail))
            if r.random() < 0.05:
                ts.append((cell, r.choice(preds), r.choice(nodes)))
            if r.random() < 0.04:
                ts.append((cell, first, r.choice(nodes)))
            if r.random() < 0.04:
                ts.append((cell, rest, r.choice(nodes + [nil])))
            tail = cell
        heads.append(tail)
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            ts.append((r.choice(nodes + heads[-1:]), r.choice(preds), tail))
        if r.random() < 0.15:
            ts.append((tail, r.choice(preds), r.choice(nodes)))
    r.shuffle(ts)
    return tuple(ts)


def rand_case(r):
    base = r.choice([None, None, r.choice(BASES)])
    px = tuple((r.choice(PFX + [""]), r.choice([n for n in NSS if safe_under_base(n, base)])) for _ in range(r.choice([0, 1, 2, 4])))
    if base is not None and not all(safe_under_base(v, base) for v in (XSD, RDF)):
        base = None
    return (rand_graph(r, base, r.random() < 0.3), px, base, r.random() < 0.1)


def fixed():
    s, p = ("n", "http://a/s"), ("n", "http://a/p")
    first, rest, nil = ("n", RDF + "first"), ("n", RDF + "rest"), ("n", RDF + "nil")
    yield ((), (), None, True)
    for i in list(range(0x120)) + [0x2028, 0x2029, 0xfeff, 0x10000, 0x1f600, 0x10ffff]:
        yield (((s, p, ("l", "a" + chr(i) + "b", None, None)), (s, p, ("l", chr(i), "en", None))), (), None, False)
    for v in ("\\", "\\\\", '"', "\\n", "\\u0041", '""', '"""', "'", "\\'", "a\\", "\n", "\\t\t", "^", '"^<'):
        yield (((s, p, ("l", v, None, XSD + "string")),), (), None, False)
    for c in IRI_OK_ASCII + "\u00e9\u00d7\u00b7\u0300\U00010000":
        c = "%25" if c == "%" else c
        for pos in ("%s", "x%s", "%sx", "x%sy", "%s%s"):
            l = pos.replace("%s", c)
            yield (((("n", "http://n/" + l), ("n", "http://n/" + l), ("n", "http://n/" + l)),), (("ex", "http://n/"),), None, False)
            yield (((("n", "http://n/" + l), ("n", "http://n/" + l), ("n", "http://n/" + l)),), (("", "http://n/"),), None, False)
            yield (((("n", "http://n/" + l), p, ("n", "http://n/q/" + l)),), (), "http://n/" if safe_under_base("http://n/" + l, "http://n/") else None, False)
    for b in BASES:
        for n in BASES + NSS:
            if safe_under_base(n, b) and safe_under_base(n + "x", b):
                yield (((("n", n), ("n", n + "x"), ("n", n)), (s, p, ("n", n + "x"))), (), b, False)
    for x in PFX + [""]:
        yield (((("n", "http://n/a"), ("n", "http://n/"), ("n", "http://n/b")), (s, ("n", RDF + "type"), ("n", XSD + "x"))), ((x, "http://n/"),), None, False)
    yield (((s, p, ("b", 0)), (("b", 0), p, ("b", 1)), (("b", 1), p, ("b", 0)), (("b", 2), p, ("b", 2))), (), None, False)
    yield (tuple((("b", i), p, ("b", (i + 1) % 12)) for i in range(12)), (), None, False)
    for d, forms in ((XSD + "integer", ["0", "+1", "-1", "00"]), (XSD + "decimal", ["1.0", ".5", "-0.0"]), (XSD + "double", ["1e0", "1.e0", ".1E-7", "-1.5e+3"]), (XSD + "boolean", ["true", "false"])):
        for v in forms:
            yield (((s, p, ("l", v, None, d)), (s, p, ("l", v, None, None)), (s, p, ("l", v, "en", None))), (), None, False)
            yield (((s, p, ("b", 0)), (("b", 0), first, ("l", v, None, d)), (("b", 0), rest, nil)), (), None, False)
        for v in ("", "abc", "1.", "1", "1.5", "1e5", "INF", "True", "1\n", "\u0661"):
            yield (((s, p, ("l", v, None, d)),), (), None, False)
    for d, forms in ((XSD + "integer", ["0", "+1", "-15"]), (XSD + "decimal", ["1.0", ".5", "-0.0"]), (XSD + "double", ["1e0", "1.e0", ".1E-7", "-1.5e+3"]), (XSD + "boolean", ["true", "false"])):
        for v in forms:
            for k in range(len(v) + 1):       # one character less, more, or twice
                for w in (v[:k] + v[k + 1:], v[:k] + " " + v[k:], v[:k] + v[k:k + 1] + v[k:], v[:k] + "_" + v[k:], v[:k] + ";" + v[k:], v[:k] + "\n" + v[k:], v[:k] + v[k:k + 1].swapcase() + v[k + 1:]):
                    yield (((s, p, ("l", w, None, d)),), (), None, False)
    for v in ("x", "", 'q"q', "a\\b"):
        yield (((s, p, ("l", v, None, "http://a/dt")), (s, p, ("l", v, None, "http://n/dt")), (s, p, ("l", v, None, RDF + "HTML"))), (("n", "http://n/"),), "http://a/", False)
    L = lambda *items: tuple(x for i, it in enumerate(items) for x in ((("b", 20 + i), first, it), (("b", 20 + i), rest, ("b", 21 + i) if i + 1 < len(items) else nil)))
    h = ("b", 20)
    yield (L(s) + ((s, p, h),), (), None, False)
    yield (L(s, p, ("l", "x", "en", None)) + ((s, p, h),), (), None, False)
    yield (L(s, p) + ((s, p, h), (s, s, h)), (), None, False)
    yield (L(s, p) + ((h, p, s),), (), None, False)
    yield (L(s, p), (), None, False)
    yield (L(s, p) + ((s, p, ("b", 21)),), (), None, False)
    yield (L(s, p) + ((s, p, h), (("b", 21), p, s)), (), None, False)
    yield (L(s, h) + ((s, p, h),), (), None, False)
    yield (L(h), (), None, False)
    yield (((s, p, nil), (nil, p, s), (s, nil, nil)), (), None, False)
    yield (L(nil, ("b", 1), nil) + ((s, p, h), (("b", 1), p, h)), (), None, False)
    yield (L(("b", 30)) + ((s, p, h), (("b", 30), first, s), (("b", 30), rest, nil)), (), None, False)
    yield (L(("b", 30)) + ((("b", 30), first, h), (("b", 30), rest, nil)), (), None, False)
    yield (L(s, s, s) + ((("b", 1), p, h), (("b", 1), p, s), (s, p, ("b", 1))), (), None, False)
    yield (((s, p, h), (h, first, s), (h, rest, s)), (), None, False)
    yield (((s, p, h), (h, first, s)), (), None, False)
    yield (((s, p, h), (h, rest, nil)), (), None, False)
    yield (((s, p, h), (h, rest, h), (h, first, h)), (), None, False)
    for n in big_sizes(210)[::3] + [130]:
        bs = [("b", 100 + i) for i in range(n)]
        yield (tuple((b, p, ("l", str(i), None, None)) for i, b in enumerate(bs)) + ((s, p, bs[0]), (s, p, bs[-1]), (s, s, bs[-1])), (), None, False)
        yield (L(*[("l", str(i), None, XSD + "integer") for i in range(n)]) + ((s, p, h),), (), None, False)
        yield (tuple((("n", "http://n/s%d" % (i % 7)), ("n", "http://n/p%d" % (i % 3)), ("l", "%d " % i * 3, None, None)) for i in range(n)), tuple(("x%d" % i, "http://n%d/" % i) for i in range(n)), None, False)
        yield (((s, p, ("l", "a" * n + "\n\"\\" + "\u00e9" * n, None, None)), (("n", "http://n/" + "a." * n + "b"), p, s)), (("n", "http://n/"),), None, False)


def cases(r):
    while True:
        yield rand_case(r)


def shrink(case):
    ts, px, base, nopro = case
    for k in (len(ts) // 2, len(ts) // 4):
        if len(ts) > 12:
            yield (ts[k:], px, base, nopro)
            yield (ts[:-k], px, base, nopro)
    for i in range(len(ts)):
        yield (ts[:i] + ts[i + 1:], px, base, nopro)
    for i in range(len(px)):
        yield (ts, px[:i] + px[i + 1:], base, nopro)
    if base is not None:
        yield (ts, px, None, nopro)
    for i, s in enumerate(ts):
        t = s[2]
        if t[0] == "l" and t[1]:
            for m in range(len(t[1])):
                yield (ts[:i] + (s[:2] + (("l", t[1][:m] + t[1][m + 1:]) + t[2:],),) + ts[i + 1:], px, base, nopro)

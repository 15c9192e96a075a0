"""C05: N-Triples and N-Quads read back."""
import io

from .lib import *

XSD = "http://www.w3.org/2001/XMLSchema#"


def uri(iri):
    return "".join(c if ord(c) < 128 else "".join("%%%02X" % b for b in c.encode("utf-8")) for c in iri)


def as_read(P, t):
    """the statement expected back"""
    def f(x):
        if isinstance(x, P.NamedNode):
            return P.NamedNode(uri(str(x)))
        if isinstance(x, P.Literal) and x.datatype is not None:
            return P.Literal(x.value, x.language, P.NamedNode(uri(str(x.datatype))))
        return x
    return tuple(f(x) for x in t)


def strict(ts):
    """the types too: a literal's datatype is a node, language a string"""
    return sorted(repr(t) for t in ts)


def execute(case):
    kind, stmts, how = case
    from pymantic import primitives as P
    from pymantic.serializers import serialize_nquads, serialize_ntriples
    from pymantic.parsers import nquads_parser, ntriples_parser
    env = Env()
    quads = kind == "quads"
    items = [env.quad(s) if quads else env.triple(s[:3]) for s in stmts]
    parser = nquads_parser if quads else ntriples_parser
    want_each = []
    for it in items:
        line = str(it)
        expect(line.endswith("\n") and not any(c in "\r\n" for c in line[:-1]), "a statement is one line", it, line)
        try:
            back = list(parser.parse(line))
        except Exception as e:  # noqa
            raise Fail(f"the parser does not accept {line!r} written for {it!r}: {type(e).__name__}: {str(e)[:200]}")
        expect(len(back) == 1, "one line is one statement", line, back)
        w = as_read(P, it)
        want_each.append(w)
        expect(iso([tuple(back[0])], [w]), f"{line!r} should read back as {w!r}", tuple(back[0]))
        check_terms(P, back[0], w)
    c = P.Dataset() if quads else P.Graph()
    for it in items:
        c.add(it)
    f = io.StringIO()
    (serialize_nquads if quads else serialize_ntriples)(c, f)
    text = f.getvalue()
    n = len({tuple(i) for i in items})
    expect(text.count("\n") == n and (n == 0 or text.endswith("\n")), f"{n} statements are {n} lines", text)
    sink = None
    if how == "string":
        out = parser.parse(text)
    elif how == "bytes":
        out = parser.parse_string(text.encode("utf-8"))
    elif how == "stream":
        out = parser.parse(io.StringIO(text))
    elif how == "lines":
        class Lines:
            def __init__(self, t):
                self.f = io.StringIO(t)

            def readline(self):
                return self.f.readline()

            def __iter__(self):
                return iter(self.f.readline, "")
        out = parser.parse(Lines(text))
    elif how == "file":
        import tempfile
        with tempfile.TemporaryFile("w+", encoding="utf-8") as tf:
            tf.write(text)
            tf.seek(0)
            out = parser.parse(tf)
    else:
        sink = P.Dataset() if quads else P.Graph()
        out = parser.parse(text, sink)
        expect(out is sink, "parsing into a given sink returns it", out)
    got = [tuple(t) for t in out]
    want = list(set(want_each))
    expect(len(got) == len(want) and iso(got, want), f"document read back ({how})", got, want)


def check_terms(P, got, want):
    for a, b in zip(got, want):
        if isinstance(b, P.BlankNode):
            expect(isinstance(a, P.BlankNode), "a blank node reads back as a blank node", a)
        elif b is None:
            expect(a is None, "no graph name reads back as none", a)
        else:
            expect(type(a) is type(b) and a == b, f"term {b!r} reads back", a)
            if isinstance(b, P.Literal):
                expect(a.value == b.value and a.language == b.language and a.datatype == b.datatype and (b.datatype is None or isinstance(a.datatype, P.NamedNode)), f"literal {b!r} reads back", a)


def rand_lit(r):
    v = rand_str(r, 10, surrogates=r.random() < 0.2)
    k = r.random()
    if k < 0.35:
        return ("l", v, r.choice(LANGS), None)
    if k < 0.65:
        return ("l", v, None, r.choice([XSD + "integer", XSD + "string", rand_iri(r), rand_iri(r, True)]))
    return ("l", v, None, None)


def rand_node(r):
    return ("b", r.randrange(4)) if r.random() < 0.35 else ("n", rand_iri(r, r.random() < 0.6))


def rand_stmt(r, quads):
    o = rand_lit(r) if r.random() < 0.6 else rand_node(r)
    g = r.choice([None, rand_node(r), ("n", "http://g/")]) if quads else None
    return (rand_node(r), ("n", rand_iri(r, r.random() < 0.6)), o, g)


def fixed():
    s, p = ("n", "http://a/s"), ("n", "http://a/p")
    yield ("triples", (), "string")
    yield ("quads", (), "stream")
    gs = [None, ("n", "http://g/"), ("b", 7), ("n", "http://\u00e9/")]
    for i in range(0, 0x120):
        yield ("quads" if i % 2 else "triples", ((s, p, ("l", "a" + chr(i) + "b", None, None), gs[i % 3]),), "stream")
    for cp in (0x2028, 0x2029, 0x85, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xd800, 0xdfff):
        for k in ("triples", "quads"):
            yield (k, ((s, p, ("l", chr(cp), None, None), None),), "stream")
    for c in IRI_OK_ASCII:
        c = "%25" if c == "%" else c
        yield ("quads", ((("n", "http://a/" + c), ("n", "http://a/x" + c + "y"), ("n", "urn:" + c), ("n", "http://g/" + c)),), "string")
        yield ("triples", ((("n", "http://a/" + c), ("n", "http://a/x" + c + "y"), ("l", "v", None, "http://dt/" + c), None),), "string")
    for l in LANGS + ["a" * 20, "en-x-1", "zh-cmn-hans-cn", "en-1", "en-a1b2"]:
        for k in ("triples", "quads"):
            yield (k, ((s, p, ("l", "v", l, None), None), (s, p, ("l", "v", None, None), None)), "bytes")
    for g in gs:
        yield ("quads", ((("b", 0), p, ("b", 1), g), (("b", 1), p, ("b", 0), None), (("b", 0), p, ("b", 0), ("b", 0))), "string")
    many = tuple((("b", i % 5), ("n", "http://a/p%d" % (i % 3)), ("l", str(i), None, None), gs[i % 4]) for i in range(30))
    for how in ("string", "bytes", "stream", "file", "sink", "lines"):
        yield ("quads", many, how)
        yield ("triples", many, how)
    for n in big_sizes(400)[::2]:
        st = tuple((("b", i), p, ("l", str(i), None, None), gs[i % 4]) for i in range(n)) + ((s, p, ("b", 0), None), (s, p, ("b", n - 1), None))
        yield ("triples", st, "stream" if n % 2 else "string")
        yield ("quads", st, "bytes" if n % 2 else "file")
        yield ("quads", ((s, p, ("l", "a" * n + "\n\"\\" + "\u00e9" * n, "en", None), ("n", "http://g/" + "g" * n)), (s, ("n", "http://p/" + "\u00e9" * n), s, None)), "stream")


def cases(r):
    while True:
        q = r.random() < 0.5
        yield ("quads" if q else "triples", tuple(rand_stmt(r, q) for _ in range(r.choice([1, 1, 1, 2, 3, 6]))), r.choice(["string", "bytes", "stream", "file", "sink", "lines"]))


def shrink(case):
    k, ss, how = case
    for m in (len(ss) // 2, len(ss) // 4):
        if len(ss) > 12:
            yield (k, ss[m:], how)
            yield (k, ss[:-m], how)
    for i in range(len(ss)):
        yield (k, ss[:i] + ss[i + 1:], how)
    for i, s in enumerate(ss):
        for j, t in enumerate(s):
            if t and t[0] == "l" and t[1]:
                for m in range(len(t[1])):
                    yield (k, ss[:i] + (s[:j] + (("l", t[1][:m] + t[1][m + 1:]) + t[2:],) + s[j + 1:],) + ss[i + 1:], how)
            if t and t[0] == "n" and t[1] not in ("http://a/",):
                yield (k, ss[:i] + (s[:j] + (("n", "http://a/"),) + s[j + 1:],) + ss[i + 1:], how)

"""C09: Turtle structure. A case is a document as a tree; its triples are computed from the tree, its text is written from it."""
import io

from .lib import *

XSD = "http://www.w3.org/2001/XMLSchema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
# term trees: ("i", n) | ("p", local) | ("l", text) | ("n", digits) | ("t",) | ("b", label) | ("anon",) |
#             ("bn", pol) | ("col", (objects...));  pol: ((verb, (objects...)), ...);  verb: ("a",) | ("i", n) | ("p", local)
# statement: ("s", subject, pol or ())
WS = [" ", "\n", "\t", "  ", " # c ; . [ ] ( ) , \"\n", "\r\n", " "]


def text_of(doc, style):
    import random
    r = random.Random(style)
    tight = style % 3 == 0

    def w():
        return " " if tight else r.choice(WS)

    def o(sep=""):
        return "" if tight else r.choice(["", " ", w()])

    def term(t):
        k = t[0]
        if k == "i":
            return "<%s>" % t[1] if ":" in t[1] else "<http://a/%s>" % t[1]
        if k == "p":
            return "ex:" + t[1]
        if k == "l":
            return '"%s"' % t[1]
        if k == "ll":
            return '"%s"@%s' % (t[1], t[2])
        if k == "dt":
            return '"%s"^^%s' % (t[1], term(t[2]))
        if k == "n":
            return t[1]
        if k == "t":
            return "true"
        if k == "b":
            return "_:" + t[1]
        if k == "anon":
            return "[" + ("" if tight else r.choice(["", " ", "\n", "\t "])) + "]"
        if k == "bn":
            return "[" + o() + pol(t[1]) + o() + "]"
        if k == "col":
            return "(" + o() + w().join(term(x) for x in t[1]) + o() + ")"
        raise ValueError(t)

    def pol(p):
        out = []
        for i, (v, os_) in enumerate(p):
            if i:
                out.append(o() + ";" + (o() + ";" if r.random() < 0.15 else "") + o())
            out.append(("a" if v[0] == "a" else term(v)) + w() + (o() + "," + o()).join(term(x) + " " for x in os_))
        if r.random() < 0.2:
            out.append(o() + ";" + o())
        return "".join(out)
    out = ["@prefix ex: <http://ex/> .\n" if style % 2 else "PREFIX ex: <http://ex/>\n"]
    for st in doc:
        out.append(term(st[1]) + (w() + pol(st[2]) if st[2] else "") + w() + "." + w())
    return "".join(out) + ("\n" if style % 5 else "")


def triples_of(P, doc):
    out = []
    labels = {}
    N = P.NamedNode

    def node(t):
        k = t[0]
        if k == "i":
            return N(t[1] if ":" in t[1] else "http://a/" + t[1])
        if k == "p":
            return N("http://ex/" + t[1])
        if k == "l":
            return P.Literal(t[1], None, N(XSD + "string"))
        if k == "ll":
            return P.Literal(t[1], t[2], None)
        if k == "dt":
            return P.Literal(t[1], None, node(t[2]))
        if k == "n":
            return P.Literal(t[1], None, N(XSD + ("double" if "e" in t[1] else "decimal" if "." in t[1] else "integer")))
        if k == "t":
            return P.Literal("true", None, N(XSD + "boolean"))
        if k == "b":
            return labels.setdefault(t[1], P.BlankNode())
        if k == "anon":
            return P.BlankNode()
        if k == "bn":
            b = P.BlankNode()
            pol(b, t[1])
            return b
        if k == "col":
            head = N(RDF + "nil")
            for x in reversed(t[1]):
                c = P.BlankNode()
                out.append((c, N(RDF + "first"), node(x)))
                out.append((c, N(RDF + "rest"), head))
                head = c
            return head

    def pol(s, p):
        for v, os_ in p:
            v = N(RDF + "type") if v[0] == "a" else node(v)
            for o in os_:
                out.append((s, v, node(o)))
    for st in doc:
        s = node(st[1])
        pol(s, st[2])
    return out


class Rec:
    """a sink that keeps everything it is given, in order and with repetitions"""

    def __init__(self):
        self.got = []

    def add(self, t):
        self.got.append(t)
        return self

    def addAll(self, ts):
        for t in ts:
            self.got.append(t)
        return self


def execute(case):
    doc, style = case
    from pymantic import primitives as P
    from pymantic.parsers import turtle_parser
    text = text_of(doc, style)
    want = triples_of(P, doc)
    try:
        if style % 4 == 0:
            g = turtle_parser.parse(io.StringIO(text))
        elif style % 4 == 1:
            g = turtle_parser.parse_string(text.encode("utf-8"))
        else:
            g = turtle_parser.parse(text)
    except Exception as e:  # noqa
        raise Fail(f"the parser does not accept {text!r}: {type(e).__name__}: {str(e)[:200]}")
    got = list(g)
    for t in got:
        expect(type(t) is P.Triple and isinstance(t[0], (P.NamedNode, P.BlankNode)) and isinstance(t[1], P.NamedNode)
               and isinstance(t[2], (P.NamedNode, P.BlankNode, P.Literal)), f"{text!r}: every component is an RDF term", t)
    expect(iso(got, want), f"{text!r} should give {want!r}", got)
    rec = Rec()
    turtle_parser.parse(text, rec)
    expect(len(rec.got) == len(want) and iso(rec.got, want), f"{text!r}: each triple is emitted exactly once", rec.got)


RDFNS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
IR = [("i", x) for x in "abc"] + [("i", RDFNS + x) for x in ("type", "first", "nil")] + [("p", "x"), ("p", "y"), ("p", "")]


def rand_term(r, d, obj=True):
    k = r.random()
    if d > 0 and k < 0.3:
        return ("col", tuple(rand_term(r, d - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))))
    if d > 0 and obj and k < 0.55:
        return ("bn", rand_pol(r, d - 1))
    if k < 0.65:
        return ("anon",)
    if k < 0.75:
        return ("b", r.choice(["x", "y", "b1"]))
    if obj and k < 0.9:
        return r.choice([("l", "v"), ("l", ""), ("l", "a; . ]"), ("n", "5"), ("n", "1.5"), ("n", "1e5"), ("t",), ("ll", "v", "en"), ("dt", "v", ("i", "dt")), ("dt", "v", ("p", "dt"))])
    return r.choice(IR)


def rand_pol(r, d):
    return tuple((r.choice(IR + [("a",)]), tuple(rand_term(r, d) for _ in range(r.choice([1, 1, 1, 2, 3])))) for _ in range(r.choice([1, 1, 1, 2, 3])))


def rand_stmt(r, d):
    if r.random() < 0.25:
        s = ("bn", rand_pol(r, d - 1 if d else 0))
        return ("s", s, rand_pol(r, d) if r.random() < 0.6 else ())
    return ("s", rand_term(r, d, False), rand_pol(r, d))


def fixed():
    i, j = ("i", "a"), ("i", "b")
    leaf = [i, ("p", "x"), ("l", "v"), ("n", "1"), ("t",), ("b", "x"), ("anon",), ("col", ()), ("ll", "v", "en"), ("dt", "v", i)]
    comp = [("col", (i,)), ("col", (i, j)), ("bn", ((j, (i,)),)), ("bn", ((("a",), (i, j)), (j, (("l", "v"),)))), ("col", (("col", ()),)), ("col", (("bn", ((j, (i,)),)), ("col", (j,)), i)),
            ("bn", ((j, (("bn", ((j, (("col", (i,)),)),)), i)),)), ("col", (("col", (i, ("col", (j,)))), j)), ("bn", ((j, (("col", (i, j)), ("col", ()))),))]
    yield ((), 0)
    yield ((), 1)
    for s in [x for x in leaf if x[0] in ("i", "p", "b", "anon", "col")] + comp:
        for o in leaf + comp:
            yield ((("s", s, ((j, (o,)),)),), 0)
            yield ((("s", s, ((j, (o, i)), (("a",), (i, o)))),), 1)
    ty = ("i", RDFNS + "type")
    for p1 in (ty, ("a",), j):
        for p2 in (ty, ("a",), j):
            for os_ in ((i,), (i, j), (("l", "v"), i)):
                yield ((("s", i, ((p1, (j,)), (p2, os_))), ("s", i, ((p1, (i,)),))), 0)
                yield ((("s", ("bn", ((p1, (j,)), (p2, os_), (p1, (j,)))), ()),), 1)
    for s in comp:
        if s[0] == "bn":
            yield ((("s", s, ()),), 2)
            yield ((("s", s, ()), ("s", s, ((j, (s,)),))), 3)
    for o in leaf + comp:
        for o2 in leaf + comp:
            yield ((("s", i, ((j, (o, o2)),)),), 4)
            yield ((("s", i, ((j, (("col", (o, o2)),)),)),), 5)
            yield ((("s", i, ((j, (("bn", ((i, (o,)), (j, (o2,)))),)),)),), 6)
    nil = ("i", RDFNS + "nil")
    for c in ((nil,), (i, nil), (nil, i), (nil, nil), (i, nil, j), (("col", ()), nil), (("i", RDFNS + "first"), ("i", RDFNS + "rest")), (("col", (nil,)), i), (("l", ""), nil)):
        yield ((("s", i, ((j, (("col", c),)),)),), 0)
        yield ((("s", ("col", c), ((("i", RDFNS + "rest"), (nil, ("col", c))),)), ("s", nil, ((j, (nil,)),))), 1)
    for n in [1, 2, 3, 5, 17, 60] + big_sizes(130)[::4]:
        yield ((("s", ("col", tuple(("n", str(k)) for k in range(n))), ((j, (("col", tuple(("n", str(k)) for k in range(n))),)),)),), 0)
        yield ((("s", i, tuple((("i", "p%d" % k), (("n", str(k)), ("n", "1"))) for k in range(n))),), 0)
        yield (tuple(("s", ("i", "s%d" % (k % 3)), ((j, (("n", str(k)),)),)) for k in range(n)), 1)
    d = i
    for n in range(8):
        d = ("bn", ((j, (d,)),)) if n % 2 else ("col", (d, d))
        if n < 6:
            yield ((("s", i, ((j, (d,)),)),), 0)


def cases(r):
    while True:
        yield (tuple(rand_stmt(r, r.choice([0, 1, 2, 3])) for _ in range(r.choice([1, 1, 2, 3]))), r.randrange(10000))


def shrink(case):
    doc, style = case
    if style:
        yield (doc, 0)
    for i in range(len(doc)):
        yield (doc[:i] + doc[i + 1:], style)

    def sub(t):
        """smaller term trees"""
        if t[0] == "col":
            for k in range(len(t[1])):
                yield ("col", t[1][:k] + t[1][k + 1:])
                for s in sub(t[1][k]):
                    yield ("col", t[1][:k] + (s,) + t[1][k + 1:])
        elif t[0] == "bn":
            for p in subp(t[1]):
                if p:
                    yield ("bn", p)
        if t not in (("i", "a"),):
            yield ("i", "a")

    def subp(p):
        for k in range(len(p)):
            yield p[:k] + p[k + 1:]
            v, os_ = p[k]
            for m in range(len(os_)):
                if len(os_) > 1:
                    yield p[:k] + ((v, os_[:m] + os_[m + 1:]),) + p[k + 1:]
                for s in sub(os_[m]):
                    yield p[:k] + ((v, os_[:m] + (s,) + os_[m + 1:]),) + p[k + 1:]
    for i, st in enumerate(doc):
        for s in sub(st[1]):
            if st[2] or s[0] == "bn":
                yield (doc[:i] + (("s", s, st[2]),) + doc[i + 1:], style)
        for p in subp(st[2]):
            if p or st[1][0] == "bn":
                yield (doc[:i] + (("s", st[1], p),) + doc[i + 1:], style)

"""C20: differences and change sets of random graphs"""
from .lib import *

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
CS = "http://purl.org/vocab/changeset/schema#"


def node(x, bn):
    import rdflib
    k = x[0]
    if k == "n":
        return rdflib.URIRef(x[1])
    if k == "b":
        return bn.setdefault(x[1], rdflib.BNode())
    return rdflib.Literal(x[1], lang=x[2], datatype=rdflib.URIRef(x[3]) if x[3] else None)


def stmts(ts, bn):
    return [tuple(node(c, bn) for c in t) for t in ts]


def build(ts, kind):
    import rdflib
    if kind == "set":
        return set(ts)
    if kind == "list":
        return list(dict.fromkeys(ts))
    g = rdflib.Graph()
    for t in ts:
        g.add(t)
    return g


def execute(case):
    import rdflib
    from pymantic.sparql import differences, changeset
    ta, tb, kind, exclude, uri = case
    bn = {}
    la, lb = stmts(ta, bn), stmts(tb, bn)
    a, b = build(la, kind), build(lb, kind)
    A, B = set(la), set(lb)
    X = set(exclude or ())
    if exclude is None:
        rem, add = differences(a, b)
    else:
        rem, add = differences(a, b, list(exclude))
    rem, add = list(rem), list(add)
    wr = {t for t in A - B if str(t[1]) not in X}
    wa = {t for t in B - A if str(t[1]) not in X}
    expect(len(rem) == len(wr) and set(rem) == wr, "removals", rem, wr)
    expect(len(add) == len(wa) and set(add) == wa, "additions", add, wa)
    if not X:
        expect((A - set(rem)) | set(add) == B, "applying the differences does not give the second graph")
    if len(la) + len(lb) > 150:
        return
    g = changeset(a, b, uri)
    expect(set(a) == A and set(b) == B, "a graph was changed")
    R = rdflib.URIRef
    heads = list(g.subjects(R(RDF + "type"), R(CS + "ChangeSet")))
    expect(len(heads) == 1, "number of change sets", heads)
    c = heads[0]
    expect(list(g.objects(c, R(CS + "subjectOfChange"))) == [R(uri)], "subject of change", list(g.objects(c, R(CS + "subjectOfChange"))))
    expect(len(list(g.objects(c, R(CS + "createdDate")))) == 1, "created date")
    nodes = set()
    for link, want in (("removal", A - B), ("addition", B - A)):
        got = []
        for n in g.objects(c, R(CS + link)):
            expect(n not in nodes and n != c, f"{link}: a statement node is used twice")
            nodes.add(n)
            parts = []
            for k in ("subject", "predicate", "object"):
                vs = list(g.objects(n, R(RDF + k)))
                expect(len(vs) == 1, f"{link}: {k} of a reified statement", vs)
                parts.append(vs[0])
            expect(list(g.objects(n, R(RDF + "type"))) == [R(RDF + "Statement")], f"{link}: type of a reified statement")
            expect(len(list(g.predicate_objects(n))) == 4, f"{link}: extra description")
            got.append(tuple(parts))
        expect(len(got) == len(want) and set(got) == want, f"reified {link}s", got, want)
    expect(len(g) == 3 + 5 * len(nodes), "extra triples in the change set graph", len(g))


TS = [("n", "http://a/s"), ("b", 0), ("b", 1), ("n", "http://a/t"), ("n", RDF + "Statement"), ("n", RDF + "nil")]
PS = [("n", "http://a/p"), ("n", "http://a/q"), ("n", RDF + "type"), ("n", CS + "removal"), ("n", CS + "createdDate")]
OS = TS + [("l", "v", None, None), ("l", "v", "en", None), ("l", "v", None, "http://www.w3.org/2001/XMLSchema#string"), ("l", "", None, None), ("l", "1", None, "http://www.w3.org/2001/XMLSchema#integer"),
           ("l", "01", None, "http://www.w3.org/2001/XMLSchema#integer"), ("l", "http://a/s", None, None), ("n", "http://a/p"), ("l", "V", None, None)]


def fixed():
    t = [(TS[0], PS[0], OS[i]) for i in range(len(OS))]
    out = []
    for kind in ("graph", "set", "list"):
        for ex in (None, (), ("http://a/p",), ("http://a/q",), ("http://a/p", "http://a/q"), ("http://a/p2", "http://a/"), (RDF,)):
            out += [((), (), kind, ex, "http://g"), (tuple(t[:3]), (), kind, ex, "http://g"), ((), tuple(t[:3]), kind, ex, "http://g"),
                    (tuple(t), tuple(t), kind, ex, "http://g"), (tuple(t[:9]), tuple(t[4:]), kind, ex, "urn:g"),
                    (((TS[1], PS[1], OS[7]),), ((TS[2], PS[1], OS[7]), (TS[1], PS[0], OS[7])), kind, ex, "urn:g")]
    for n in big_sizes(400):
        many = tuple((("b", 10 + i) if i % 3 else TS[0], PS[i % 2], ("l", str(i), None, None)) for i in range(n))
        for kind in ("graph", "set", "list"):
            out += [(many, (), kind, None, "http://g"), ((), many, kind, ("http://a/q",), "http://g"), (many, many[: n // 2] + many[n // 2 + 1:], kind, None, "http://g")]
    return out


def cases(r):
    while True:
        pool = [(r.choice(TS), r.choice(PS), r.choice(OS)) for _ in range(r.randrange(1, 10))]
        if r.random() < 0.1:
            pool += [(TS[0], PS[0], ("n", f"http://a/{i}")) for i in range(r.choice([15, 30, 40]))]
        f = lambda: tuple(dict.fromkeys(t for t in pool if r.random() < 0.6))
        ex = r.choice([None, None, (), tuple(p[1] for p in PS if r.random() < 0.3), ("http://a/s", "v"),
                       tuple(r.choice([p[1] + "2", p[1][:-1], p[1].upper(), "x" + p[1], p[1]]) for p in PS if r.random() < 0.4)])
        yield (f(), f(), r.choice(["graph", "graph", "set", "list"]), ex, r.choice(["http://g", "urn:x:\u00e9", "http://a/s", "http://a/t", "http://a/p", CS + "ChangeSet"]))


def shrink(case):
    a, b, k, e, u = case
    for i in range(len(a)):
        yield (a[:i] + a[i + 1:], b, k, e, u)
    for i in range(len(b)):
        yield (a, b[:i] + b[i + 1:], k, e, u)

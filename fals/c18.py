"""C18: JSON-LD loading.  Oracle: the dataset the JSON-LD processor (pyld) returns for the same document."""
from .lib import *

EX = "http://ex.org/"


def expected(dataset, P, bn):
    def term(t):
        if t["type"] == "IRI":
            return P.NamedNode(t["value"])
        if t["type"] == "blank node":
            return bn(t["value"])
        if t.get("language") is not None:
            return P.Literal(t["value"], t["language"], None)
        return P.Literal(t["value"], None, P.NamedNode(t["datatype"]))
    out = []
    for name, ts in dataset.items():
        g = None if name == "@default" else bn(name) if name.startswith("_:") else P.NamedNode(name)
        for t in ts:
            out.append((term(t["subject"]), term(t["predicate"]), term(t["object"]), g))
    return out


def lists(x):
    """a document as JSON has it (cases hold tuples)"""
    if isinstance(x, (list, tuple)):
        return [lists(y) for y in x]
    return {k: lists(v) for k, v in x.items()} if isinstance(x, dict) else x


def execute(case):
    docs, options, prefill, ours = case
    docs = [lists(d) for d in docs]
    from pyld import jsonld
    from pymantic import primitives as P
    from pymantic.parsers.jsonld import PyLDLoader, jsonld_parser
    env = Env()
    parser = PyLDLoader() if ours else jsonld_parser
    sink, want = None, []
    if prefill is not None:
        sink = P.Dataset()
        for q in prefill:
            sink.add(env.quad(q))
            want.append(tuple(env.quad(q)))
    for doc in docs:
        labels = {}

        def bn(l):
            if l not in labels:
                labels[l] = P.BlankNode()
            return labels[l]
        import copy
        opts = dict(options)
        try:
            ds = jsonld.to_rdf(copy.deepcopy(doc), options=dict(opts))
        except jsonld.JsonLdError:
            return
        given = copy.deepcopy(doc)
        kw = {"options": dict(opts)} if opts else {}
        got = parser.parse_json(given, **kw) if sink is None else parser.parse_json(given, sink, **kw)
        if sink is None:
            sink = got
            expect(isinstance(got, P.Dataset), "loading gives a dataset", got)
        expect(got is sink, "loading returns the sink it was given", got)
        want += expected(ds, P, bn)
        quads = [tuple(q) for q in sink]
        expect(len(quads) == len({x for x in want}), f"loading stores one quad per statement ({len(set(want))})", quads)
        expect(iso(quads, want), "loading stores exactly the quads of the expanded dataset", quads, sorted(map(repr, want)))
        for q in quads:
            for x in q:
                expect(x is None or isinstance(x, (P.NamedNode, P.BlankNode, P.Literal)), "every component is a term", q)
                if isinstance(x, P.Literal):
                    expect(x.datatype is None or isinstance(x.datatype, P.NamedNode), "a datatype is a named node", x)
            expect(q[3] is None or not isinstance(q[3], P.Literal), "graph names are nodes", q)
        expect({q[3] for q in quads} == {q[3] for q in want} or any(isinstance(q[3], P.BlankNode) for q in want), "graph names", quads)


def node(r, depth=0):
    d = {}
    if r.random() < 0.8:
        d["@id"] = r.choice([EX + "a", EX + "b", "_:x", "_:y", "_:b0", EX + "g", "rdf:type", "urn:z"])
    if r.random() < 0.3:
        d["@type"] = [r.choice([EX + "T", "_:t"])]
    for _ in range(r.randrange(0, 3)):
        d.setdefault(r.choice([EX + "p", EX + "q", EX + "p", "rdf:value", "urn:p"]), []).extend(value(r, depth) for _ in range(r.randrange(1, 3)))
    return d


def value(r, depth):
    k = r.random()
    if k < 0.2:
        return {"@value": r.choice(["v", "", "w", rand_str(r, 3)])}
    if k < 0.4:
        return {"@value": r.choice(["v", "", rand_str(r, 3)]), "@language": r.choice(["en", "en-us", "fr", "de"])}
    if k < 0.55:
        return {"@value": r.choice(["v", "1"]), "@type": r.choice(["xsd:date", "rdf:HTML", "foaf:x", "urn:x", EX + "dt", EX + "langString", "http://www.w3.org/1999/02/22-rdf-syntax-ns#HTML", EX + "string", EX + "language", "http://www.w3.org/2001/XMLSchema#date", "http://www.w3.org/2001/XMLSchema#string"])}
    if k < 0.65:
        return {"@value": r.choice([1, 2.5, True, False, 0, 1e30])}
    if k < 0.75 and depth < 2:
        return {"@list": [value(r, 2) for _ in range(r.randrange(0, 3))]}
    if depth < 2:
        return node(r, depth + 1)
    return {"@id": r.choice([EX + "a", "_:x", "rdf:nil", "xsd:x", "urn:y"])}


def doc(r):
    out = [node(r) for _ in range(r.randrange(1, 3))]
    if r.random() < 0.6:
        g = {"@id": r.choice([EX + "g", EX + "h", "_:x", "_:g", EX + "default", EX + "@default", "urn:default", "_:default", "urn:_:x"]), "@graph": [node(r) for _ in range(r.randrange(1, 3))]}
        if r.random() < 0.2:
            del g["@id"]
        out.append(g)
        if r.random() < 0.4:
            out.append({"@id": EX + "h", "@graph": [node(r)]})
    return out


def fixed():
    lit = lambda **k: {EX + "p": [dict({"@value": "v"}, **k)], "@id": EX + "a"}
    for g in (EX + "default", EX + "@default", "urn:default", "_:default", "urn:_:x"):
        yield (([{"@id": g, "@graph": [lit()]}, lit(**{"@language": "fr"})],), {}, None, True)
    for t in (EX + "langString", EX + "string", "urn:lang", EX + "language", "http://www.w3.org/2001/XMLSchema#string2"):
        yield (([lit(**{"@type": t})],), {}, None, False)
    for d in ([lit()], [lit(**{"@language": "en"})], [lit(**{"@type": EX + "dt"})], [{"@id": EX + "g", "@graph": [lit()]}], [{"@id": "_:g", "@graph": [{"@id": "_:g", EX + "p": [{"@id": "_:h"}]}]}, {"@id": "_:g", EX + "q": [{"@value": "x"}]}],
              [{"@id": EX + "a", EX + "p": [{"@list": [{"@value": "1"}, {"@value": "1"}]}, {"@list": []}]}], [{"@id": "_:x", EX + "p": [{"@id": "_:y"}, {"@id": "_:x"}]}], []):
        for pre in (None, [], [(("n", EX + "s"), ("n", EX + "p"), ("l", "old"), None), (("n", EX + "s"), ("n", EX + "p"), ("b", 0), ("n", EX + "g"))]):
            for n in (1, 2):
                yield ((d,) * n, {}, pre, n == 1)
    for n in (33, 130):
        yield (([{"@id": "_:n%d" % i, EX + "p": [{"@value": str(i)}, {"@id": "_:n0"}]} for i in range(n)] + [{"@id": EX + "g", "@graph": [{"@id": EX + "s%d" % i, EX + "p": [{"@value": i}]} for i in range(n)]}],), {}, None, True)
        yield (([{"@id": EX + "a", EX + "p": [{"@list": [{"@value": str(i)} for i in range(n)]}]}],), {}, None, False)
        yield (([{"@id": EX + "a", EX + "p": [{"@value": "\u00e9" * n, "@language": "en"}]}],), {}, None, False)


def cases(r):
    while True:
        pre = r.choice([None, None, [(("n", EX + "s"), ("n", EX + "p"), ("l", "old"), None)], [(("b", 0), ("n", EX + "p"), ("n", EX + "a"), ("n", EX + "g"))]])
        yield (tuple(doc(r) for _ in range(r.choice([1, 1, 2]))), r.choice([{}, {}, {"produceGeneralizedRdf": True}, {"base": "http://base/"}]), pre, r.random() < 0.3)


def shrink(case):
    docs, options, prefill, ours = case
    if len(docs) > 1:
        for i in range(len(docs)):
            yield (docs[:i] + docs[i + 1:], options, prefill, ours)
    if options:
        yield (docs, {}, prefill, ours)
    if prefill:
        yield (docs, options, None, ours)
    for i, d in enumerate(docs):
        for j in range(len(d)):
            yield (docs[:i] + (d[:j] + d[j + 1:],) + docs[i + 1:], options, prefill, ours)
            for k in list(d[j]):
                if k != "@id":
                    e = {a: b for a, b in d[j].items() if a != k}
                    yield (docs[:i] + (d[:j] + (e,) + d[j + 1:],) + docs[i + 1:], options, prefill, ours)

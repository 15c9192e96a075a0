"""C15: RDF list traversal."""
from .lib import *

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
EX = "http://ex.org/"


def execute(case):
    cells, elems, extra, sub = case
    if cells == "long":
        cells, elems, extra, sub = make("b", [KINDS[i % len(KINDS)] for i in range(elems)])
        starts = [0, len(elems) // 2]
    else:
        starts = range(len(elems) + 1)
    from pymantic import rdf as R
    env = Env()
    P = env.P
    FIRST, REST, NIL = (P.NamedNode(RDF + x) for x in ("first", "rest", "nil"))
    g = P.Graph()
    cs = [env.term(c) for c in cells] + [NIL]
    es = [env.term(e) for e in elems]
    for i, e in enumerate(es):
        g.add(P.Triple(cs[i], FIRST, e))
        g.add(P.Triple(cs[i], REST, cs[i + 1]))
    for t in extra:
        g.add(env.triple(t))
    before = {tuple(t) for t in g}
    cls = R.List
    if sub:
        class Mine(R.List):
            prefixes = {"ex": EX}
            scalars = frozenset(("ex:k",))
        cls = Mine
    for start in starts:
        l = cls(g, cs[start])
        it = iter(l)
        got = []
        for _ in range(len(es) + 3):
            try:
                got.append(next(it))
            except StopIteration:
                break
        want = es[start:]
        expect(len(got) == len(want), f"list from cell {start}: {len(want)} items", got)
        for x, e in zip(got, want):
            if isinstance(e, P.Literal):
                expect(isinstance(x, P.Literal) and x == e, f"list from cell {start}: item should be {e!r}", x)
            else:
                expect(isinstance(x, R.Resource) and type(x.subject) is type(e) and x.subject == e and x.graph is g, f"list from cell {start}: item should be the resource of {e!r}", x)
        # a second traversal, and through a generic resource
        if len(es) > 1000:
            continue
        again = list(R.Resource(g, cs[start]).as_(cls))
        expect(len(again) == len(want) and all(a == b for a, b in zip(again, got)), f"list from cell {start}: the same items again", again)
    some = {t[0] for t in before} if len(es) < 1000 else {cs[0], cs[-2]}
    for n in some | {t[2] for t in before if not isinstance(t[2], P.Literal)} | {NIL}:
        want = any(t[0] == n and t[1] == REST for t in before)
        got = cls.is_list(n, g)
        expect(got == want and isinstance(got, bool), f"is_list({n!r}) should be {want}", got)
    expect({tuple(t) for t in g} == before, "traversal changes nothing")


KINDS = [("l", "a", None, None), ("l", "a", "en", None), ("l", "a", "fr", None), ("l", "", None, None), ("l", "0", None, EX + "dt"), ("n", EX + "e"), ("n", ""), ("b", 900), ("n", RDF + "nil"),
         ("l", "a", "en-us", None), ("l", "a", None, "http://www.w3.org/2001/XMLSchema#string")]


def make(cellkind, elems, extra=(), sub=False):
    cells = [("b", i) if cellkind == "b" else ("n", EX + "cell%d" % i) for i in range(len(elems))]
    return (tuple(cells), tuple(elems), tuple(extra), sub)


def fixed():
    for ck in "bn":
        for n in range(0, 4):
            import itertools
            for es in itertools.product(KINDS[:9], repeat=n) if n < 3 else [(k, k, k) for k in KINDS] + [(KINDS[i], KINDS[i - 1], KINDS[i - 4]) for i in range(len(KINDS))]:
                yield make(ck, es)
    yield ("long", 4000, (), False)
    # nodes with one of the two properties of a cell only
    yield make("b", [KINDS[0]], [(("b", 700), ("n", RDF + "first"), ("l", "z")), (("n", EX + "half"), ("n", RDF + "first"), ("b", 0)),
                                 (("b", 701), ("n", RDF + "rest"), ("n", RDF + "nil")), (("n", EX + "halfrest"), ("n", RDF + "rest"), ("b", 0))])
    yield make("b", [KINDS[0]], [(("b", 701), ("n", RDF + "rest"), ("n", RDF + "nil")), (("b", 701), ("n", RDF + "rest"), ("b", 0)), (("n", EX + "two"), ("n", RDF + "rest"), ("n", EX + "e")), (("n", EX + "two"), ("n", RDF + "rest"), ("l", "x"))])
    for v in (("n", ""), ("l", "", None, None), ("l", "0", None, None), ("n", EX + "half"), ("b", 702)):
        yield make("b", [KINDS[0]], [(("n", EX + "half"), ("n", RDF + "rest"), v)])
        yield make("n", [], [(("b", 700), ("n", RDF + "rest"), v), (("n", ""), ("n", RDF + "rest"), v)])
    for n in (7, 40, 300):
        yield make("b", [KINDS[i % len(KINDS)] for i in range(n)])
    # elements that are themselves lists, or the list itself
    yield make("b", [("b", 1), ("b", 0), ("n", EX + "e")])
    yield make("n", [("n", EX + "cell0"), ("n", EX + "cell1")], sub=True)


def cases(r):
    while True:
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 13])
        ck = r.choice("bn")
        es = [r.choice(KINDS + [("b", r.randrange(3)), ("n", EX + "cell%d" % r.randrange(3)), ("l", rand_str(r, 3), r.choice([None, "en", "de"]), None)]) for _ in range(n)]
        nodes = [("b", 0), ("n", EX + "cell0"), ("n", EX + "e"), ("b", 900)]
        extra = [(r.choice(nodes), ("n", r.choice([EX + "p", RDF + "type", "http://www.w3.org/2000/01/rdf-schema#label"])), r.choice(nodes + KINDS + [("n", RDF + "List")])) for _ in range(r.randrange(0, 4))]
        # a second list sharing the tail
        if n and r.random() < 0.3:
            c = ("b", 500)
            extra += [(c, ("n", RDF + "first"), ("l", "z")), (c, ("n", RDF + "rest"), ("b", 0) if ck == "b" else ("n", EX + "cell0"))]
        yield make(ck, es, extra, r.random() < 0.3)


def shrink(case):
    cells, elems, extra, sub = case
    if cells == "long":
        for n in (2000, 1000, 300):
            yield ("long", n, (), False)
        return
    for i in range(len(elems)):
        yield (cells[:i] + cells[i + 1:], elems[:i] + elems[i + 1:], extra, sub)
    for i in range(len(extra)):
        yield (cells, elems, extra[:i] + extra[i + 1:], sub)

"""C12: reading, testing, deleting resource keys."""
from .res import *


def execute(case):
    cls, subj, ts, ops = case
    w = World(cls, subj, ts)
    w.same("construction")
    for op in ops:
        if op[0] in ("get", "scalar", "in", "del"):
            w.step_read(op)
        elif op[0] == "iter":
            got = list(w.r)
            want = {(t[1], t[2]) for t in w.model if t[0] == w.subject}
            expect(len(got) == len(want) and {tuple(x) for x in got} == want, "iterating a resource gives its predicates and objects", got, want)
        elif op[0] == "of":
            p = op[1]
            inc = [t for t in w.model if t[2] == w.subject and not isinstance(t[2], w.P.Literal) and (p is None or t[1] == FULL[p])]
            got = list(w.r.object_of() if p is None else w.r.object_of(p))
            lab = f"object_of({p!r})"
            expect(len(got) == len(inc), f"{lab}: {len(inc)} triples refer to it", got)
            rest = [(t[0], t[1]) for t in inc]
            for x in got:
                s, q = (x[0], x[1]) if p is None else (x, None)
                hit = [h for h in rest if h[0] == getattr(s, "subject", None) and (q is None or h[1] == q)]
                expect(hit, f"{lab}: {safe_repr(x)} does not refer to it")
                rest.remove(hit[0])
                w.check_resource(s, hit[0][0], lab)
            w.same(lab)
        elif op[0] == "add":
            t = w.env.triple(op[1])
            w.g.add(t)
            w.model.add(tuple(t))
    from pymantic.primitives import lang_match
    for a in SLANGS + [None]:
        for b in SLANGS + [None]:
            expect(bool(lang_match(a, b)) == lm(a, b), f"lang_match({a!r}, {b!r}) should be {lm(a, b)}")


def fixed():
    n = lambda x: ("n", EX + x)
    objs = [("l", "v", "en", None), ("l", "v", "en-us", None), ("l", "v", "en-gb", None), ("l", "v", "fr", None), ("l", "v", None, None),
            ("l", "1", None, DTS[0]), ("l", "1", None, DTS[2]), n("y"), ("b", 0)]
    for p in ("rdfs:label", "ex:m", "ex:s"):
        ts = [(n("x"), ("n", FULL[p]), o) for o in objs] + [(n("y"), ("n", FULL[p]), o) for o in objs] + [(n("x"), n("k"), o) for o in objs]
        ts += [(n("y"), ("n", RDF + "type"), n("A2")), (("b", 0), ("n", RDF + "type"), n("B")), (("b", 0), n("m"), n("x")), (n("y"), n("s"), n("x"))]
        keys = [("plain", p), ("none", p), ("bare", p, 0), ("bare", p, 1)] + [("lang", p, l) for l in SLANGS] + [("dt", p, d) for d in DTS] + \
            [("cls", p, c) for c in ("A", "B", "A2", "Base", "Resource")]
        for k in keys:
            for sub in (ts, ts[:2] + ts[9:], ts[4:5] + ts[9:], ts[5:7] + ts[9:], ts[7:]):
                yield ("Base", n("x"), tuple(sub), tuple((o, k) for o in ("get", "scalar", "in", "del", "in", "get")) + (("iter",), ("of", None), ("of", p)))
    for m in big_sizes(150):
        for p, of in (("ex:m", ("lang", "node")), ("ex:s", ("lang", "dt"))):
            ts = crowd(m, p=p, of=of) + tuple((n("o%d" % i), n("m"), n("x")) for i in range(m // 2))
            for k in (("plain", p), ("lang", p, "en")):
                yield ("Base", n("x"), ts, tuple((o, k) for o in ("get", "in", "del")) + (("iter",), ("of", None), ("of", p)))


def cases(r):
    while True:
        cls, subj, ts = rand_world(r)
        ps = preds_for(cls)
        ops = []
        for _ in range(r.randrange(1, 7)):
            k = r.random()
            if k < 0.8:
                ops.append((r.choice(["get", "get", "scalar", "in", "del"]), rand_key(r, ps)))
            elif k < 0.87:
                ops.append(("iter",))
            elif k < 0.94:
                ops.append(("of", r.choice([None] + ps[:3])))
            elif ts:
                ops.append(("add", r.choice(ts)))
        yield (cls, subj, tuple(ts), tuple(ops))

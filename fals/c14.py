"""C14: resource creation, erasing, copying, class lookup."""
from .lib import *

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
TYPE = RDF + "type"
EX = "http://ex.org/"
_n = [0]


class W:
    def __init__(self, fam, triples):
        from pymantic import rdf as R
        self.R, self.env = R, Env()
        self.P = self.env.P
        _n[0] += 1
        self.ns = EX + "c%d/" % _n[0]
        self.cs, self.reg = [], {}
        self.names = 2 if len(triples) % 2 else 100        # classes may share a name
        for spec in fam:
            self.define(spec)
        self.g, self.model = self.P.Graph(), set()
        for t in triples:
            self.put(t)

    def term(self, d):
        if d is not None and d[0] == "t":      # the rdf type of class number d[1]
            return self.P.NamedNode(self.ns + "T%d" % d[1])
        return self.env.term(d)

    def put(self, t):
        t = self.P.Triple(*[self.term(x) for x in t])
        self.g.add(t)
        self.model.add(tuple(t))

    def define(self, spec):
        """spec: (bases, rdf type numbers): one -> register_class; several -> rdf_classes attribute only; none -> unregistered"""
        bases, types = spec
        bs = tuple(self.cs[b] for b in bases) or (self.R.Resource,)
        iris = [self.P.NamedNode(self.ns + "T%d" % t) for t in types]
        d = {"prefixes": {"t": self.ns}}
        if len(iris) > 1:
            d["rdf_classes"] = frozenset(iris)
        c = self.R.MetaResource("K%d" % (len(self.cs) % self.names), bs, d)
        if len(iris) == 1:
            out = self.R.register_class("t:T%d" % types[0])(c)
            expect(out is c, "register_class returns the class", out)
            self.reg[iris[0]] = c
        self.cs.append(c)
        if not hasattr(self, "want_types"):
            self.want_types = []
        if iris:
            self.want_types.append(set(iris))
        else:
            self.want_types.append(set(self.want_types[bases[0]]) if bases else set())

    def same(self, what):
        got = {tuple(t) for t in self.g}
        expect(got == self.model and len(self.g) == len(self.model) and all(type(a) is type(b) for t in got for u in self.model if t == u for a, b in zip(t, u)),
               f"{what}: graph content; missing {safe_repr(self.model - got)}, unexpected {safe_repr(got - self.model)}")

    def types(self, n):
        return {t[2] for t in self.model if t[0] == n and t[1] == TYPE}

    def classified(self, r, n, what):
        R = self.R
        expect(isinstance(r, R.Resource) and type(r.subject) is type(n) and r.subject == n and r.graph is self.g, f"{what}: a resource for the same subject {n!r}", r)
        rs = [self.reg[t] for t in self.types(n) if t in self.reg]
        mins = [c for c in rs if not any(d is not c and issubclass(d, c) for d in rs)]
        for c in rs:
            expect(isinstance(r, c), f"{what}: of types {sorted(map(str, self.types(n)))} should be an instance of {c.__name__}", type(r).__mro__)
        if not rs:
            expect(type(r) is R.Resource, f"{what}: no registered type, should be a plain Resource", type(r))
        if len(set(mins)) == 1:
            expect(type(r) is mins[0], f"{what}: should be exactly {mins[0].__name__}", type(r).__mro__)
        for c in self.cs:
            if isinstance(r, c):
                expect(any(issubclass(d, c) for d in rs), f"{what}: instance of the unrelated class {c.__name__}", type(r).__mro__)
        if len(set(mins)) > 1:
            expect(set(type(r).rdf_classes) == self.types(n), f"{what}: the combined class requires all the types", type(r).rdf_classes, self.types(n))
            expect(r.is_a() is True, f"{what}: is_a of what it was classified by", r)

    def subjects(self):
        return {t[0] for t in self.model} | {t[2] for t in self.model if not isinstance(t[2], self.P.Literal)}


def execute(case):
    if case[0] == "meta":
        return meta(case[1])
    fam, triples, ops = case
    w = W(fam, triples)
    P = w.P
    w.same("construction")
    for i, op in enumerate(ops):
        k = op[0]
        lab = f"step {i + 1} {op!r}"
        if k == "def":
            w.define(op[1])
        elif k == "add":
            w.put(op[1])
        elif k == "new":
            c = w.cs[op[1]]
            want = w.want_types[op[1]]
            if op[2] is None:
                r = c.new(w.g)
                n = r.subject
                expect(isinstance(n, P.BlankNode) and n not in w.subjects(), f"{lab}: a new blank subject", n)
            else:
                s = w.term(op[2])
                r = c.new(w.g, s if k == "new" and op[3] else str(s) if isinstance(s, P.NamedNode) else s)
                n = s
            expect(type(r) is c and type(r.subject) is type(n) and r.subject == n and r.graph is w.g, f"{lab}: an instance for the subject", r)
            for t in want:
                w.model.add((n, P.NamedNode(TYPE), t))
            w.same(lab)
            expect(r.is_a() is True, f"{lab}: a new resource is an instance of its class")
        elif k == "erase":
            n = w.term(op[2])
            w.cs[op[1]](w.g, n).erase()
            w.model = {t for t in w.model if t[0] != n}
            w.same(lab)
        elif k == "copy":
            n, m = w.term(op[2]), w.term(op[3])
            r = w.cs[op[1]](w.g, n).copy(m if op[4] or not isinstance(m, P.NamedNode) else str(m))
            w.model |= {(m, t[1], t[2]) for t in w.model if t[0] == n}
            w.same(lab)
            w.classified(r, m, lab)
        elif k == "is_a":
            n = w.term(op[2])
            got = w.cs[op[1]](w.g, n).is_a()
            want = w.want_types[op[1]] <= w.types(n)
            expect(got is want or got == want, f"{lab}: is_a should be {want}", got)
            w.same(lab)
        elif k == "in":
            c = w.cs[op[1]]
            need = w.want_types[op[1]]
            if not need:
                continue
            got = c.in_graph(w.g)
            want = {s for s in {t[0] for t in w.model} if need <= w.types(s)}
            expect(len(got) == len(want) and {x.subject for x in got} == want and all(type(x) is c and x.graph is w.g for x in got), f"{lab}: instances of the class", got, want)
            w.same(lab)
        elif k == "classify":
            n = w.term(op[2])
            cls = w.cs[op[1]] if op[1] is not None else w.R.Resource
            w.classified(cls.classify(w.g, n), n, lab)
            w.same(lab)
        elif k == "as":
            n = w.term(op[2])
            r = w.cs[op[1]](w.g, n).as_(w.cs[op[3]])
            expect(type(r) is w.cs[op[3]] and r.subject == n and type(r.subject) is type(n) and r.graph is w.g, f"{lab}: same subject seen as the class", r)
            w.same(lab)
        elif k == "lit":
            l = w.term(op[1])
            expect(w.R.Resource.classify(w.g, l) is l or w.R.Resource.classify(w.g, l) == l, f"{lab}: a literal stays a literal")
            expect(w.R.Resource.classify(w.g, None) is None, "classifying None")
    # leave no registrations behind
    for t in list(w.reg):
        w.R.MetaResource._classes.pop(t, None)


def meta(specs):
    """a family of classes (bases, own prefixes or None, own scalars or None): what each knows of prefixes and scalars"""
    from pymantic import rdf as R
    from pymantic.primitives import NamedNode, PrefixMap
    base = (dict(R.Resource.prefixes), set(R.Resource.scalars))
    cs, want = [], []

    def verify(lab):
        for c, (ps, sc) in zip([R.Resource] + cs, [base] + want):
            expect(isinstance(c.prefixes, PrefixMap) and set(c.prefixes) == set(ps), f"{lab}: prefixes of {c.__name__}", dict(c.prefixes), ps)
            for k, v in ps.items():
                if v is not None:
                    expect(c.prefixes[k] == v, f"{lab}: prefix {k!r} of {c.__name__}", c.prefixes[k], v)
            expect(set(c.scalars) == sc, f"{lab}: scalars of {c.__name__} should be {safe_repr(sc)}", c.scalars)
    for i, (bases, pre, sca) in enumerate(specs):
        bs = [b for b in bases if b < i]
        inh = [want[b] for b in bs] or [base]
        ps = {}
        for p, _ in inh:
            for k, v in p.items():
                ps[k] = v if k not in ps or ps[k] == v else None        # bases that disagree: either
        ps.update(dict(pre or ()))
        # own scalars are only named with prefixes that are settled
        own = [x for x in sca or () if "://" in x or ps.get(x.partition(":")[0])]
        d = {}
        if pre is not None:
            d["prefixes"] = dict(pre)
        if sca is not None:
            d["scalars"] = set(own)
        try:
            c = R.MetaResource("M%d" % i, tuple(cs[b] for b in bs) or (R.Resource,), d)
        except TypeError:       # no consistent method resolution order
            cs.append(R.Resource)
            want.append(base)
            continue
        cs.append(c)
        full = {x if "://" in x else ps[x.partition(":")[0]] + x.partition(":")[2] for x in own}
        want.append((ps, set().union(*[s for _, s in inh]) | {NamedNode(x) for x in full}))
        verify(f"class {i}")


def rand_meta(r):
    specs = []
    for i in range(r.randrange(1, 5)):
        bases = tuple(sorted({r.randrange(i) for _ in range(r.randrange(0, 3))}, reverse=True)) if i else ()
        pre = None if r.random() < 0.3 else tuple((k, EX + r.choice("12") + k + "/") for k in ("p", "q", "", "rdfs") if r.random() < 0.4)
        sca = None if r.random() < 0.3 else tuple(r.choice(["p:a", "p:b", "q:a", "rdfs:comment", "rdfs:label", EX + "z"]) for _ in range(r.randrange(0, 3)))
        specs.append((bases, pre, sca))
    return ("meta", tuple(specs))


FAMS = [
    [((), (0,)), ((), (1,)), ((0,), (2,)), ((), ()), ((1,), ())],
    [((), (0,)), ((), (1,)), ((), (0, 1)), ((), (2,)), ((), (0, 1, 2))],
    [((), (0,)), ((0,), (1,)), ((1,), (2,)), ((), (3,)), ((3,), (4,))],
    [((), (0,)), ((), (1,)), ((0, 1), (2,)), ((2,), (3,)), ((), (0,))],
]


def fixed():
    s, b = ("n", EX + "s"), ("b", 0)
    for fam in FAMS:
        for n in (s, b):
            for mask in range(16):
                ts = [(n, ("n", TYPE), ("t", j)) for j in range(4) if mask >> j & 1] + [(("n", EX + "o"), ("n", TYPE), ("t", 0)), (("n", EX + "o"), ("n", TYPE), ("t", 1)), (n, ("n", EX + "p"), ("l", "v")), (("n", EX + "o"), ("n", EX + "p"), n)]
                ops = [("classify", None, n), ("classify", 0, n)] + [("is_a", c, n) for c in range(5)] + [("in", c) for c in range(5)]
                ops += [("copy", 0, n, ("n", EX + "t"), True), ("copy", 1, n, ("b", 3), True), ("copy", 0, n, n, True), ("new", mask % 5, None), ("new", mask % 5, n, True), ("new", mask % 5, s, False), ("as", 0, n, 1), ("erase", 0, n), ("classify", None, n), ("lit", ("l", "v", "en"))]
                yield (tuple(fam), tuple(ts), tuple(ops))
    for m in big_sizes(400):
        ts = [(s, ("n", EX + "p"), ("l", "v%d" % i)) for i in range(m)] + [(("n", EX + "i%d" % i), ("n", TYPE), ("t", 0)) for i in range(m)] + \
            [(s, ("n", TYPE), ("n", EX + "Other%d" % i)) for i in range(m)] + [(s, ("n", TYPE), ("t", 1))]
        yield (tuple(FAMS[0]), tuple(ts), (("classify", None, s), ("in", 0), ("copy", 0, s, ("n", EX + "t"), True), ("is_a", 1, s), ("erase", 0, s)))
    yield ("meta", (((), (("p", EX + "p/"),), ("p:a",)), ((0,), None, ("rdfs:comment",)), ((0,), (("p", EX + "p2/"),), ("p:a",)), ((1,), (), ()), ((2,), None, None)))
    yield (tuple(FAMS[0]), ((s, ("n", TYPE), ("t", 0)), (s, ("n", TYPE), ("t", 1))), (("classify", None, s), ("def", ((), (1,))), ("classify", None, s), ("add", (s, ("n", TYPE), ("n", EX + "other"))), ("classify", None, s)))


    yield (((), (0,)), ((), (1,))), ((s, ("n", TYPE), ("t", 0)), (s, ("n", TYPE), ("t", 1)), (s, ("n", EX + "p"), ("l", "v"))), \
        (("classify", None, s), ("def", ((), (0,))), ("classify", None, s), ("def", ((), (0,))), ("def", ((), (1,))), ("classify", None, s))


def cases(r):
    while True:
        if r.random() < 0.1:
            yield rand_meta(r)
            continue
        fam = r.choice(FAMS) if r.random() < 0.6 else [((), (0,))] + [((r.randrange(i),) if r.random() < 0.5 else (), tuple(sorted({r.randrange(4) for _ in range(r.randrange(0, 3))}))) for i in range(1, 5)]
        nodes = [("n", EX + "s"), ("n", EX + "o"), ("b", 0), ("b", 1)] + ([("n", "")] if r.random() < 0.1 else [])

        def trip():
            if r.random() < 0.6:
                return (r.choice(nodes), ("n", TYPE), r.choice([("t", r.randrange(5)), ("t", r.randrange(3)), ("n", EX + "Other"), ("b", 1)]))
            return (r.choice(nodes), ("n", EX + r.choice("pq")), r.choice(nodes + [("l", "v"), ("l", "v", "en")]))
        ts = [trip() for _ in range(r.randrange(0, 9))]
        ops = []
        for _ in range(r.randrange(1, 8)):
            k = r.choice(["new", "erase", "copy", "is_a", "in", "classify", "classify", "as", "add", "def"])
            c = r.randrange(len(fam))
            n = r.choice(nodes)
            ops.append({"new": ("new", c, r.choice([None, n]), r.random() < 0.5), "erase": ("erase", c, n), "copy": ("copy", c, n, r.choice(nodes + [("n", EX + "t")]), r.random() < 0.5),
                        "is_a": ("is_a", c, n), "in": ("in", c), "classify": ("classify", r.choice([None, c]), n), "as": ("as", c, n, r.randrange(len(fam))), "add": ("add", trip()),
                        "def": ("def", ((), (r.randrange(4),)))}[k])
        yield (tuple(fam), tuple(ts), tuple(ops))


def shrink(case):
    if case[0] == "meta":
        for i in range(len(case[1])):
            yield ("meta", case[1][:i])
        return
    fam, ts, ops = case
    if len(ts) > 12:
        for k in (len(ts) // 2, len(ts) // 4):
            yield (fam, ts[k:], ops)
            yield (fam, ts[:-k], ops)
    for i in range(len(ops)):
        yield (fam, ts, ops[:i] + ops[i + 1:])
    for i in range(len(ts)):
        yield (fam, ts[:i] + ts[i + 1:], ops)

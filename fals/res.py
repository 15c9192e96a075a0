"""Resources over a graph: oracle shared by C12, C13, C14.  The graph is a plain set of triples; selection is written
from the documented rules, not from the code."""
from .lib import *

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
RDFS = "http://www.w3.org/2000/01/rdf-schema#"
XSD = "http://www.w3.org/2001/XMLSchema#"
EX = "http://ex.org/"

PREDS = ["rdfs:label", "ex:m", "ex:s", EX + "m", EX + "s", "rdf:type", "ex:k"]
FULL = {"rdfs:label": RDFS + "label", "ex:m": EX + "m", "ex:s": EX + "s", EX + "m": EX + "m", EX + "s": EX + "s", "rdf:type": RDF + "type", "ex:k": EX + "k"}
SCALAR = {RDFS + "label", EX + "s"}
DTS = [XSD + "integer", XSD + "date", EX + "dt", EX + "types#string", EX + "string", "http://www.w3.org/2001/XMLSchema-datatypes#integer"]
SLANGS = ["en", "en-us", "en-gb", "fr", "fr-ca", "de", "en-us-x"]

_cls = {}


def classes():
    """fixed class family, registered once per process"""
    if not _cls:
        from pymantic import rdf as R

        class Base(R.Resource):
            prefixes = {"ex": EX}
            scalars = frozenset(("ex:s",))

        class French(Base):
            lang = "fr"

        @R.register_class("ex:A")
        class A(Base):
            pass

        @R.register_class("ex:B")
        class B(Base):
            pass

        @R.register_class("ex:A2")
        class A2(A):
            pass
        _cls.update(Base=Base, French=French, A=A, B=B, A2=A2, Resource=R.Resource)
    return _cls


REGISTERED = {EX + "A": "A", EX + "B": "B", EX + "A2": "A2"}


def lm(a, b):
    """language match: itself, or the bare primary tag with any of its regions"""
    if a is None or b is None:
        return a is None and b is None
    if a == b:
        return True
    pa, pb = a.split("-")[0], b.split("-")[0]
    return pa == pb and (a == pa or b == pb or a == pa + "-" or b == pb + "-")


class World:
    def __init__(self, case_cls, subject, triples):
        self.env = Env()
        self.P = self.env.P
        self.cs = classes()
        self.g = self.P.Graph()
        self.model = set()
        for t in triples:
            t = self.env.triple(t)
            self.g.add(t)
            self.model.add(tuple(t))
        self.subject = self.env.term(subject)
        self.cls = self.cs[case_cls]
        self.r = self.cls(self.g, self.subject)

    def same(self, what):
        got = {tuple(t) for t in self.g}
        expect(got == self.model and len(self.g) == len(self.model),
               f"{what}: graph content; missing {safe_repr(self.model - got)}, unexpected {safe_repr(got - self.model)}")

    def isnode(self, o):
        return isinstance(o, (self.P.NamedNode, self.P.BlankNode))

    def types(self, n):
        return {t[2] for t in self.model if t[0] == n and t[1] == RDF + "type" and not isinstance(t[2], self.P.Literal)}

    def registered(self, n):
        rs = [self.cs[REGISTERED[str(t)]] for t in self.types(n) if isinstance(t, self.P.NamedNode) and str(t) in REGISTERED]
        return [c for c in rs if not any(d is not c and issubclass(d, c) for d in rs)]

    def instance_of(self, n, c):
        return any(issubclass(d, c) for d in self.registered(n)) or c is self.cs["Resource"]

    def check_resource(self, r, node, what):
        expect(isinstance(r, self.cs["Resource"]) and type(r.subject) is type(node) and r.subject == node and r.graph is self.g,
               f"{what}: should be the resource of {node!r}", r)
        want = self.registered(node)
        if not want:
            expect(type(r) is self.cs["Resource"], f"{what}: a node of no registered type is a plain Resource", type(r))
        else:
            expect(all(isinstance(r, c) for c in want), f"{what}: should be an instance of {want}", type(r))
            if len(want) == 1:
                expect(type(r) is want[0], f"{what}: should be exactly {want[0]}", type(r))
            else:
                for n in ("A", "B", "A2"):
                    c = self.cs[n]
                    expect(isinstance(r, c) == any(issubclass(w, c) for w in want), f"{what}: instance of {n}", type(r))

    # -- selection ---------------------------------------------------------------------------------
    def key(self, k):
        kind, p = k[0], k[1]
        if len(k) > 3 and k[3]:
            p = self.P.NamedNode(FULL[p])
        if kind == "plain":
            return p
        if kind == "none":
            return (p, None)
        if kind == "lang":
            return (p, k[2])
        if kind == "bare":
            return (p, "" if k[2] == 0 else self.P.NamedNode(XSD + "string"))
        if kind == "dt":
            return (p, self.P.NamedNode(k[2]))
        return (p, self.cs[k[2]])

    def select(self, k):
        P = self.P
        p = FULL[k[1]]
        sc = p in SCALAR and (p != EX + "s" or self.cls is not self.cs["Resource"])
        objs = [t[2] for t in self.model if t[0] == self.subject and t[1] == p]
        nodes = [o for o in objs if self.isnode(o)]
        lits = [o for o in objs if isinstance(o, P.Literal)]
        bare = [o for o in lits if o.language is None and o.datatype is None]
        kind = k[0]
        if kind == "none" or kind == "plain" and not sc:
            return objs, sc
        if kind == "plain":
            for sel in ([o for o in lits if o.language is not None and lm(o.language, self.cls.lang)], nodes, [o for o in lits if o.datatype is not None], bare):
                if sel:
                    return sel, sc
            return [], sc
        if kind == "bare":
            return bare, sc
        if kind == "cls":
            return [o for o in nodes if self.instance_of(o, self.cs[k[2]])], sc
        if kind == "lang":
            sel = [o for o in lits if o.language is not None and lm(o.language, k[2])]
        else:
            sel = [o for o in lits if o.datatype == k[2]]
        return sel + ([] if sc else nodes), sc

    def check_value(self, got, o, what):
        if isinstance(o, self.P.Literal):
            expect(isinstance(got, self.P.Literal) and got == o, f"{what}: should be the literal {o!r}", got)
        else:
            self.check_resource(got, o, what)

    def many(self, got, want, what):
        got = list(got)
        rest = list(want)
        expect(len(got) == len(want), f"{what}: should be the {len(want)} objects {safe_repr(want)}", got)
        for x in got:
            o = x.subject if isinstance(x, self.cs["Resource"]) else x
            hit = [w for w in rest if type(w) is type(o) and w == o]
            expect(hit, f"{what}: {safe_repr(x)} is not selected (or twice), should be {safe_repr(want)}")
            rest.remove(hit[0])
            self.check_value(x, hit[0], what)

    def one(self, thunk, want, what):
        try:
            got = thunk()
        except ValueError as e:
            expect(len(want) > 1, f"{what}: ValueError although {len(want)} objects are selected", e)
            return
        expect(len(want) <= 1, f"{what}: several objects are selected, should be refused", got)
        if not want:
            expect(got is None, f"{what}: nothing is selected, should be None", got)
        else:
            self.check_value(got, want[0], what)

    def step_read(self, op):
        what, k = op[0], op[1]
        key = self.key(k)
        want, sc = self.select(k)
        lab = f"{what} {key!r}"
        if what == "get":
            if sc and k[0] != "none":
                self.one(lambda: self.r[key], want, lab)
            else:
                self.many(self.r[key], want, lab)
        elif what == "scalar":
            self.one(lambda: self.r.get_scalar(key), want, lab)
        elif what == "in":
            got = key in self.r
            expect(got == bool(want), f"{lab}: membership should be {bool(want)}", got)
        elif what == "del":
            del self.r[key]
            p = FULL[k[1]]
            for o in want:
                self.model.discard((self.subject, p, o))
        self.same(lab)


def outcome(f):
    try:
        return ("ok", f())
    except Fail:
        raise
    except Exception as e:  # noqa
        return ("raise", e)


def rand_obj(r, nodes):
    k = r.random()
    if k < 0.35:
        return r.choice(nodes)
    v = r.choice(["v", "", "w", "1", rand_str(r, 3)])
    if k < 0.6:
        return ("l", v, r.choice(SLANGS), None)
    if k < 0.8:
        return ("l", v, None, r.choice(DTS))
    return ("l", v, None, None)


def rand_world(r):
    nodes = [("n", EX + "x"), ("n", EX + "y"), ("b", 0), ("b", 1)]
    if r.random() < 0.1:
        nodes.append(("n", r.choice(["", "x", EX, EX + "x/", EX + "X"])))
    subj = r.choice(nodes)
    ts = []
    for _ in range(r.randrange(0, 9)):
        s = subj if r.random() < 0.8 else r.choice(nodes)
        p = FULL[r.choice(PREDS[:5] if r.random() < 0.9 else PREDS)]
        if p == RDF + "type":
            continue
        ts.append((s, ("n", p), rand_obj(r, nodes)))
    for _ in range(r.randrange(0, 5)):
        ts.append((r.choice(nodes), ("n", RDF + "type"), ("n", EX + r.choice(["A", "B", "A2", "C"]))))
    return r.choice(["Resource", "Base", "Base", "Base", "French", "A", "A2"]), subj, ts


def crowd(n, subj=("n", EX + "x"), p="ex:m", of=("lang", "bare", "dt", "node")):
    """n triples of one subject and predicate, of the given kinds of object"""
    mk = {"lang": lambda i: ("l", "v%d" % i, SLANGS[i % 3], None), "bare": lambda i: ("l", "v%d" % i, None, None),
          "dt": lambda i: ("l", str(i), None, DTS[i % 2]), "node": lambda i: ("n", EX + "o%d" % i)}
    return tuple((subj, ("n", FULL[p]), mk[of[i % len(of)]](i)) for i in range(n))


def rand_key(r, preds, with_excluded=True):
    p = r.choice(preds)
    full = r.random() < 0.2
    k = r.random()
    if k < 0.3:
        return ("plain", p, None, full)
    if k < 0.55:
        return ("lang", p, r.choice(SLANGS), full)
    if k < 0.75:
        return ("dt", p, r.choice(DTS), full)
    if k < 0.85 or not with_excluded:
        return ("cls", p, r.choice(["A", "B", "A2", "Base", "Resource"]), full)
    if k < 0.93:
        return ("none", p, None, full)
    return ("bare", p, r.choice([0, 1]), full)


def preds_for(cls):
    # a plain Resource has no ex: prefix
    return ["rdfs:label", EX + "m", EX + "s", "rdf:type"] if cls == "Resource" else PREDS


def shrink(case):
    cls, subj, ts, ops = case
    if len(ts) > 12:
        for k in (len(ts) // 2, len(ts) // 4):
            yield (cls, subj, ts[k:], ops)
            yield (cls, subj, ts[:-k], ops)
    for i in range(len(ops)):
        yield (cls, subj, ts, ops[:i] + ops[i + 1:])
    for i in range(len(ts)):
        yield (cls, subj, ts[:i] + ts[i + 1:], ops)

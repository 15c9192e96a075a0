"""C03: contracts of pymantic.primitives.Dataset: a set of quads, partitioned into graphs."""
import z3
import pymantic.primitives as P
from pyvc import terms as T
from pyvc.core import Engine
from pyvc.terms import U, T3, Q4, NONE, mk, proj, conj, disj, ex
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.verify import *
from . import graph
from .graph import GraphAt, SliceView, REQUIRED as R, is_abs, view

QS = [lambda t, i=i: proj(Q4, i, t) for i in range(4)]
GR = QS[3]


class Graphs(OpaqueV):
    """the dict of graphs of a dataset: present keys, the uri of each graph, and all quads"""

    def __init__(self, E, name, empty=False):
        self.E = E
        q0 = z3.Function(f"Q_{name}", Q4, z3.BoolSort())
        p0 = z3.Function(f"Present_{name}", U, z3.BoolSort())
        u0 = z3.Function(f"Uri_{name}", U, U)
        self.q0, self.p0, self.u0 = q0, p0, u0
        self.q = SetV(E, Q4, None if empty else (lambda x: q0(x)), name=f"quads of {name}")
        self.present = SetV(E, U, None if empty else (lambda x: p0(x)), name=f"graph names of {name}")
        self.uri = MapV(E, U, U, has0=lambda k: TRUE, get0=lambda k: u0(k), name=f"graph uris of {name}")
        self.lens = {}
        if not empty:
            x, k = z3.FreshConst(Q4, "x"), z3.FreshConst(U, "k")
            E.assume(T.forall([x], z3.Implies(q0(x), conj([p0(GR(x))] + [f(x) != NONE for f in QS[:3]])), patterns=[q0(x)]))
            E.assume(T.forall([k], z3.Implies(p0(k), u0(k) == k), patterns=[u0(k)]))
        real = P.Dataset()
        if set(vars(real)) != {"_graphs"}:
            raise Unsupported("representation of Dataset")
        self.auto = getattr(real._graphs, "default_factory", None) is not None
        if self.auto and real._graphs.default_factory is not P.Graph:
            raise Unsupported("factory of Dataset._graphs")
        super().__init__(f"graphs of {name}", type(real._graphs), {"$truth": None}, methods={
            "__getitem__": lambda E, a, k: self.get(E, a[0]),
            "__setitem__": lambda E, a, k: self.put(E, a[0], a[1]),
            "__delitem__": lambda E, a, k: self.drop(E, a[0]),
            "__contains__": lambda E, a, k: BoolV(self.present.mem(E.uterm(a[0]))),
            "__iter__": lambda E, a, k: self.keys(E),
            "__len__": lambda E, a, k: self.count(E),
            "keys": lambda E, a, k: self.keys(E), "values": lambda E, a, k: self.values(E), "items": lambda E, a, k: self.items(E),
            "get": self.get_or, "pop": self.pop, "setdefault": self.setdefault})
        self.attrs.pop("$truth")

    def get(self, E, key):
        k = E.uterm(key)
        if not E.decide(self.present.mem(k)):
            if not self.auto:
                raise PyRaise(ExcV(KeyError, (key,)))
            self.present.add(UV(k))
            self.uri.set(k, NONE)
        return GraphAt(self, k)

    def put(self, E, key, g):
        k = E.uterm(key)
        if not is_abs(g):
            raise Unsupported("stored graph")
        uri = E.uterm(g.fields["_uri"] if isinstance(g, GraphAt) else g.attrs["_uri"])
        v = view(g)
        segs = v.segs()
        self.drop_content(k)
        self.present.add(UV(k))
        self.uri.set(k, uri)
        sl = SliceView(self.q, k)
        s = segs[0] if segs else None
        if s is not None:
            A = lambda x: T.subst(s.guard, [(s.bs[0], x)])
            sl.apply(Aff(lambda x: TRUE, A, "store graph"))
        if isinstance(g, Obj):
            # from here on the object is the stored graph
            g.attrs["$view"] = sl

            def hook(E, o, name, val):
                if name == "_uri":
                    self.uri.set(k, E.uterm(val))
                return False
            g.attrs["$setattr"] = hook
        else:
            raise Unsupported("one graph object under two names")

    def drop_content(self, k):
        self.q.apply(Aff(lambda x: GR(x) != k, lambda x: FALSE, "drop graph"))

    def drop(self, E, key):
        k = E.uterm(key)
        if not E.decide(self.present.mem(k)):
            raise PyRaise(ExcV(KeyError, (key,)))
        self.drop_content(k)
        self.present.remove_term(k)

    def get_or(self, E, a, kw):
        k = E.uterm(a[0])
        if E.decide(self.present.mem(k)):
            return GraphAt(self, k)
        return a[1] if len(a) > 1 else None

    def setdefault(self, E, a, kw):
        k = E.uterm(a[0])
        if not E.decide(self.present.mem(k)):
            self.put(E, a[0], a[1])
        return GraphAt(self, k)

    def pop(self, E, a, kw):
        raise Unsupported("pop of a graph")

    def keys(self, E):
        k = z3.FreshConst(U, "k")
        return SeqV([Seg([k], self.present.mem(k), UV(k))], (self.present,))

    def values(self, E):
        k = z3.FreshConst(U, "k")
        return SeqV([Seg([k], self.present.mem(k), GraphAt(self, k))], (self.present,))

    def items(self, E):
        k = z3.FreshConst(U, "k")
        return SeqV([Seg([k], self.present.mem(k), TupV(tuple, [UV(k), GraphAt(self, k)]))], (self.present,))

    def count(self, E):
        from pyvc import model
        return model.count_segs(E, self.keys(E).segs, unique=True)

    def slice_len(self, E, k):
        f = z3.Function(f"slicelen!{len(self.q.ops)}", U, z3.IntSort())
        return IntV(f(k))


def dataset(E, name="d", empty=False):
    gs = Graphs(E, name, empty)
    return Obj(E, P.Dataset, {"_graphs": gs}, name), gs


def copy_state(gs):
    return dict(q=gs.q.mem, present=gs.present.mem, snap=(gs.q.snap(), gs.present.snap(), gs.uri.snap()))


def frozen(E, s):
    n = SetV(E, s.sort, s.base)
    n.ops = s.ops
    return n.mem


def keeps_invariant(E, nm, gs):
    x, k = E.fresh_const("x", Q4), E.fresh_const("k", U)
    E.oblige(f"{nm}: every quad belongs to a graph of the dataset", z3.Implies(gs.q.mem(x), gs.present.mem(GR(x))))
    E.oblige(f"{nm}: every graph carries its own name", z3.Implies(gs.present.mem(k), gs.uri.get(k) == k))


def check_state(E, nm, gs, want, graphs=None):
    x, k = E.fresh_const("x", Q4), E.fresh_const("k", U)
    E.oblige(f"{nm}: the quads are as specified", gs.q.mem(x) == want(x))
    if graphs is not None:
        E.oblige(f"{nm}: no graph is created or lost", gs.present.mem(k) == graphs(k))
    keeps_invariant(E, nm, gs)


def sym_quad(E):
    t = z3.Const("quad", Q4)
    for f in QS[:3]:
        E.assume(f(t) != NONE)
    return t, E.from_term(t, Q4)


def pattern(E):
    ps = [z3.Const(n, U) for n in ("ps", "pp", "po", "pg")]
    return ps, (lambda x: conj([disj([p == NONE, f(x) == p]) for p, f in zip(ps, QS)]))


# ---- contracts as used by callers (each proved of its body below) -----------------------------------------

def c_add(E, args, kw):
    self, quad = args
    gs = self.attrs["_graphs"]
    t = E.term(quad, Q4)
    gs.q.add(E.from_term(t, Q4))
    gs.present.add(UV(GR(t)))
    gs.uri.set(GR(t), GR(t))
    return None


def c_remove(E, args, kw):
    self, quad = args
    gs = self.attrs["_graphs"]
    t = E.term(quad, Q4)
    if not E.decide(gs.q.mem(t)):
        raise PyRaise(ExcV(KeyError, (quad,)))
    gs.q.remove_term(t)
    return None


def c_match(E, args, kw):
    names = ["self", "subject", "predicate", "object", "graph"]
    v = dict(zip(names, args))
    v.update(kw)
    gs = v["self"].attrs["_graphs"]
    ps = [None if v.get(n) is None else E.uterm(v[n]) for n in names[1:]]

    def thunk():
        x = z3.FreshConst(Q4, "t")
        return [Seg([x], conj([gs.q.mem(x)] + [disj([p == NONE, f(x) == p]) for p, f in zip(ps, QS) if p is not None]), E.from_term(x, Q4))]
    return LazyV(thunk, "Dataset.match", (gs.q,))


def c_iter(E, args, kw):
    gs = args[0].attrs["_graphs"]
    return LazyV(lambda: gs.q.segs(), "iter(Dataset)", (gs.q,))


CON = {P.Dataset.add: c_add, P.Dataset.remove: c_remove, P.Dataset.match: c_match, P.Dataset.__iter__: c_iter}


def sum_hook(E, segs):
    E.counter += 1
    c = z3.Const(f"sum!{E.counter}", z3.IntSort())
    if not hasattr(E, "sums"):
        E.sums = {}
    E.sums[c.decl().name()] = segs
    return IntV(c)


def engine():
    def mkE():
        E = Engine()
        graph.install(E)
        E.contracts.update(CON)
        E.sum_hook = sum_hook
        return E
    return mkE


def method(nm, fn, body):
    """runs fn's own body; body(E, ds, gs, old quads, old graphs, call)"""
    def thunk(E):
        E.disabled.add(fn)
        ds, gs = dataset(E)
        old, oldp = frozen(E, gs.q), frozen(E, gs.present)

        def call(*args, **kw):
            got = outcome(E, lambda: E.call(fn, [ds] + list(args), kw))
            if got[0] == "ok" and isinstance(got[1], LazyV):
                lz = got[1]
                got = outcome(E, lambda: ListV(E, E.segments(lz)))
            return got
        body(E, nm, ds, gs, old, oldp, call)
    return Task(nm, thunk, [fn.__qualname__])


def ok(E, nm, got):
    E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
    return got[0] == "ok"


def t_add(E, nm, ds, gs, old, oldp, call):
    t, quad = sym_quad(E)
    if ok(E, nm, call(quad)):
        check_state(E, nm, gs, lambda x: disj([old(x), x == t]), lambda k: disj([oldp(k), k == GR(t)]))


def t_remove(E, nm, ds, gs, old, oldp, call):
    t, quad = sym_quad(E)
    got = call(quad)
    if E.decide(old(t)):
        if ok(E, nm, got):
            check_state(E, nm, gs, lambda x: conj([old(x), x != t]))
    else:
        E.oblige(f"{nm}: an absent quad raises KeyError", z3.BoolVal(got[0] == "raise" and issubclass(got[1].cls, KeyError)))
        check_state(E, nm + " (absent)", gs, old, oldp)


def t_match(E, nm, ds, gs, old, oldp, call):
    ps, m = pattern(E)
    got = call(*[UV(p) for p in ps])
    if ok(E, nm, got):
        compare_collection(E, nm, got[1], lambda x: conj([old(x), m(x)]), Q4)
    check_state(E, nm, gs, old, oldp)


def t_removeMatches(E, nm, ds, gs, old, oldp, call):
    ps, m = pattern(E)
    got = call(*[UV(p) for p in ps])
    if ok(E, nm, got):
        E.oblige(f"{nm}: returns the dataset", z3.BoolVal(got[1] is ds))
        check_state(E, nm, gs, lambda x: conj([old(x), z3.Not(m(x))]))


def t_addAll(E, nm, ds, gs, old, oldp, call):
    X = z3.Function("X", Q4, z3.BoolSort())
    x = z3.FreshConst(Q4, "x")
    E.assume(T.forall([x], z3.Implies(X(x), conj([f(x) != NONE for f in QS[:3]])), patterns=[X(x)]))
    got = call(SeqV([Seg([x], X(x), E.from_term(x, Q4))]))
    if ok(E, nm, got):
        E.oblige(f"{nm}: returns the dataset", z3.BoolVal(got[1] is ds))
        check_state(E, nm, gs, lambda y: disj([old(y), X(y)]))


def t_addAll_ds(E, nm, ds, gs, old, oldp, call):
    other, og = dataset(E, "e")
    o2 = frozen(E, og.q)
    p2 = frozen(E, og.present)
    got = call(other)
    if ok(E, nm, got):
        check_state(E, nm, gs, lambda y: disj([old(y), o2(y)]))
        check_state(E, nm + ": the argument", og, o2, p2)


def t_len(E, nm, ds, gs, old, oldp, call):
    got = call()
    if not ok(E, nm, got):
        return
    v = got[1]
    if not isinstance(v, IntV) or not z3.is_const(v.e) or v.e.decl().name() not in getattr(E, "sums", {}):
        raise Unsupported("length is not a sum over the graphs")
    segs = E.sums[v.e.decl().name()]
    if len(segs) != 1 or len(segs[0].bs) != 1:
        raise Unsupported("length is not a sum over the graphs")
    s = segs[0]
    k = E.fresh_const("k", U)
    g, e = s.inst([k])
    E.oblige(f"{nm}: sums over exactly the graphs of the dataset", g == oldp(k))
    E.oblige(f"{nm}: each graph counts with its length", z3.Implies(oldp(k), E.zint(e) == z3.Function("slicelen!0", U, z3.IntSort())(k)))
    check_state(E, nm, gs, old, oldp)


def t_contains_q(E, nm, ds, gs, old, oldp, call):
    t, quad = sym_quad(E)
    got = call(quad)
    if ok(E, nm, got):
        r = E.truth(got[1])
        E.oblige(f"{nm}: true exactly for the quads of the dataset", (z3.BoolVal(r) if isinstance(r, bool) else r) == old(t))
    check_state(E, nm, gs, old, oldp)


def t_contains_t(E, nm, ds, gs, old, oldp, call):
    t = z3.Const("triple", T3)
    for i in range(3):
        E.assume(proj(T3, i, t) != NONE)
    got = call(E.from_term(t, T3))
    if ok(E, nm, got):
        r = E.truth(got[1])
        k = z3.FreshConst(U, "k")
        E.oblige(f"{nm}: true exactly if some graph has the triple", (z3.BoolVal(r) if isinstance(r, bool) else r) ==
                 ex([k], old(mk(Q4, *[proj(T3, i, t) for i in range(3)], k))))
    check_state(E, nm, gs, old, oldp)


def t_iter(E, nm, ds, gs, old, oldp, call):
    got = call()
    if ok(E, nm, got):
        compare_collection(E, nm, got[1], old, Q4)
    check_state(E, nm, gs, old, oldp)


def t_toArray(E, nm, ds, gs, old, oldp, call):
    got = call()
    if ok(E, nm, got):
        E.oblige(f"{nm}: an immutable set", z3.BoolVal(isinstance(got[1], SetV) and got[1].cls is frozenset))
        if isinstance(got[1], SetV):
            compare_set(E, f"{nm}: exactly the quads", got[1], old, Q4)
    check_state(E, nm, gs, old, oldp)


def t_add_graph(E, nm, ds, gs, old, oldp, call):
    g = graph.abs_graph(E, "g")
    V = z3.Function("V_g", T3, z3.BoolSort())
    graph.terms_not_none(E, V)
    uri = g.attrs["_uri"].e
    E.assume(disj([uri == NONE, T.isNN(uri), T.isStr(uri)]))
    named = UV(z3.Const("named", U))
    E.assume(disj([named.e == NONE, T.isNN(named.e), T.isStr(named.e)]))
    given = E.choose()
    got = call(g, named) if given else call(g)
    if given and E.decide(T.truthy(named.e)):
        name = named.e
    elif E.decide(T.truthy(uri)):
        name = uri
    else:
        E.oblige(f"{nm}: a graph without a name is refused with ValueError", z3.BoolVal(got[0] == "raise" and issubclass(got[1].cls, ValueError)))
        check_state(E, nm + " (refused)", gs, old, oldp)
        return
    if not ok(E, nm, got):
        return
    tri = lambda x: mk(T3, *[f(x) for f in QS[:3]])
    check_state(E, nm, gs, lambda x: disj([conj([GR(x) != name, old(x)]), conj([GR(x) == name, V(tri(x))])]), lambda k: disj([oldp(k), k == name]))
    y = E.fresh_const("y", T3)
    E.oblige(f"{nm}: the graph keeps its triples", view(g).mem(y) == V(y))


def init_task():
    def thunk(E):
        o = Obj(E, P.Dataset)
        got = outcome(E, lambda: E.call(P.Dataset.__init__, [o], {}))
        E.oblige("Dataset(): does not raise", z3.BoolVal(got[0] == "ok"))
        d = o.attrs.get("_graphs")
        if not isinstance(d, DictV):
            raise Unsupported("representation of a new dataset")
        E.oblige("Dataset(): is empty", z3.BoolVal(not d.d))
    return Task("Dataset.__init__", thunk, ["Dataset.__init__"])


def tasks():
    D = P.Dataset
    return [init_task(), method("Dataset.add", D.add, t_add), method("Dataset.remove", D.remove, t_remove),
            method("Dataset.match", D.match, t_match), method("Dataset.removeMatches", D.removeMatches, t_removeMatches),
            method("Dataset.addAll", D.addAll, t_addAll), method("Dataset.addAll (a dataset)", D.addAll, t_addAll_ds),
            method("Dataset.__len__", D.__len__, t_len), method("Dataset.__contains__ (quad)", D.__contains__, t_contains_q),
            method("Dataset.__contains__ (triple)", D.__contains__, t_contains_t), method("Dataset.__iter__", D.__iter__, t_iter),
            method("Dataset.toArray", D.toArray, t_toArray), method("Dataset.add_graph", D.add_graph, t_add_graph),
            *[create_task(k) for k in ("a sequence", "a dataset", "nothing")]]


def create_task(kind):
    """RDFEnvironment.createDataset: a new dataset of exactly the given quads"""
    nm = f"RDFEnvironment.createDataset({kind})"

    def thunk(E):
        made = []

        def new(E, args, kw):                 # Dataset() is empty: proved of Dataset.__init__
            d, gs = dataset(E, f"new{len(made)}", empty=True)
            made.append((d, gs))
            return d
        E.contracts[P.Dataset] = new
        env = Obj(E, P.RDFEnvironment, {}, "env")
        args, want, other = [], (lambda x: FALSE), None
        if kind == "a sequence":
            X = z3.Function("X", Q4, z3.BoolSort())
            x = z3.FreshConst(Q4, "x")
            E.assume(T.forall([x], z3.Implies(X(x), conj([f(x) != NONE for f in QS[:3]])), patterns=[X(x)]))
            args, want = [SeqV([Seg([x], X(x), E.from_term(x, Q4))])], X
        elif kind == "a dataset":
            other, og = dataset(E, "e")
            o2, p2 = frozen(E, og.q), frozen(E, og.present)
            args, want = [other], o2
        got = outcome(E, lambda: E.call(E.getattr_(env, "createDataset"), args, {}))
        if not ok(E, nm, got):
            return
        mine = [gs for d, gs in made if d is got[1]]
        E.oblige(f"{nm}: returns a new dataset", z3.BoolVal(len(mine) == 1))
        if mine:
            check_state(E, nm, mine[0], want)
        if other is not None:
            check_state(E, nm + ": the argument", og, o2, p2)
        E.oblige(f"{nm}: the environment is unchanged", z3.BoolVal(all(k.startswith("$") for k in env.attrs)))
    return Task(nm, thunk, ["RDFEnvironment.createDataset"])

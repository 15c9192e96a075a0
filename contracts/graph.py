"""Contracts of pymantic.primitives.Graph: abstract view V (a set of triples)."""
import z3
import pymantic.primitives as P
from pyvc import terms as T
from pyvc.core import Engine
from pyvc.terms import U, T3, Q4, NONE, mk, proj, conj, disj, ex
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.verify import *

S, PR, OB = (lambda t: proj(T3, 0, t)), (lambda t: proj(T3, 1, t)), (lambda t: proj(T3, 2, t))


# ---- abstract graphs ------------------------------------------------------------------------

def abs_graph(E, name, uri=None, empty=False):
    V = z3.Function(f"V_{name}", T3, z3.BoolSort())
    v = SetV(E, T3, None if empty else (lambda x: V(x)), name=f"view of {name}",
             card=z3.IntVal(0) if empty else z3.Const(f"card_{name}", z3.IntSort()))
    if not empty:
        x = z3.FreshConst(T3, "x")
        E.assume(z3.Const(f"card_{name}", z3.IntSort()) >= 0)
    return Obj(E, P.Graph, {"$view": v, "_uri": UV(z3.Const(f"uri_{name}", U)) if uri is None else uri}, name)


def view(o):
    return o.view() if isinstance(o, GraphAt) else o.attrs["$view"]


def is_abs(o):
    return isinstance(o, GraphAt) or (isinstance(o, Obj) and "$view" in o.attrs)


class GraphAt(RecV):
    """the graph object a dataset stores under a key: a slice of the dataset's quads"""

    def __init__(self, gs, k):
        self.gs, self.k, self.cls, self.tag = gs, k, P.Graph, None

    @property
    def fields(self):
        return {"_uri": UV(self.gs.uri.get(self.k))}

    def sub(self, p):
        return GraphAt(self.gs, T.subst(self.k, p))

    def vc_set(self, E, name, val):
        if name != "_uri":
            raise Unsupported(f"assignment to Graph.{name}")
        self.gs.uri.set(self.k, E.uterm(val))

    def vc_deps(self):
        return (self.gs.q,)

    def view(self):
        return SliceView(self.gs.q, self.k)

    def __repr__(self):
        return f"graph[{self.k}]"


class SliceView:
    """the triples of one graph of a dataset, with the interface of SetV"""
    sort, card, cls = T3, None, set

    def __init__(self, q, k):
        self.q, self.k, self.dep = q, k, q
        self.name = f"{q.name}[{k}]"

    def mem(self, t):
        return self.q.mem(mk(Q4, proj(T3, 0, t), proj(T3, 1, t), proj(T3, 2, t), self.k))

    def apply(self, op, card=None):
        k = self.k
        tri = lambda x: mk(T3, proj(Q4, 0, x), proj(Q4, 1, x), proj(Q4, 2, x))
        g = lambda x: proj(Q4, 3, x)
        self.q.apply(Aff(lambda x: disj([g(x) != k, op.K(tri(x))]), lambda x: conj([g(x) == k, op.A(tri(x))]), op.note))

    def coerce(self, v):
        return self.q.E.term(v, T3)

    def add(self, v):
        t = self.coerce(v)
        self.apply(Aff(lambda x: TRUE, lambda x: x == t, "add"))

    def remove_term(self, t):
        self.apply(Aff(lambda x: x != t, lambda x: FALSE, "remove"))

    def segs(self):
        x = z3.FreshConst(T3, "e")
        return [Seg([x], self.mem(x), self.q.E.from_term(x, T3))]


def terms_not_none(E, view_pred):
    """data invariant of RDF graphs: no component of a triple is None"""
    x = z3.FreshConst(T3, "x")
    E.assume(T.forall([x], z3.Implies(view_pred(x), conj([S(x) != NONE, PR(x) != NONE, OB(x) != NONE])),
                       patterns=[view_pred(x)] if z3.is_app(view_pred(x)) else []))


def concretize(E, o):
    """representation of an abstract graph: the triple set and the three indexes determined by the view"""
    v = view(o)
    base = v.mem
    sn = SetV(E, T3, base, name="_triples", card=v.card)
    real = P.Graph()
    auto = hasattr(real._spo, "default_factory") and real._spo.default_factory is not None

    def index(nm, order):
        # order: positions of (first, second, third) key in the triple
        def tri(a, b, c):
            k = [None] * 3
            for pos, val in zip(order, (a, b, c)):
                k[pos] = val
            return mk(T3, *k)

        def h3(a, b, c):
            return base(tri(a, b, c))

        def h2(a, b):
            c = z3.FreshConst(U, "k")
            return ex([c], base(tri(a, b, c)))

        def h1(a):
            b, c = z3.FreshConst(U, "k"), z3.FreshConst(U, "k")
            return ex([b, c], base(tri(a, b, c)))
        return IndexRef(IndexV(E, h1, h2, h3, lambda a, b, c: tri(a, b, c), nm, auto), ())
    o.attrs = {"_uri": o.attrs["_uri"], "_triples": sn, "_spo": index("_spo", (0, 1, 2)),
               "_pos": index("_pos", (1, 2, 0)), "_osp": index("_osp", (2, 0, 1)),
               "_actions": SetV(E, U, lambda x: FALSE, name="_actions")}
    known = set(o.attrs)
    for extra in vars(real):
        if extra not in known:
            raise Unsupported(f"unknown Graph attribute {extra}")
    for k in ("_triples", "_spo", "_pos", "_osp"):
        if k not in vars(real):
            raise Unsupported(f"Graph has no attribute {k}")
    return o


def conforms(E, o, want, name):
    """the concrete state of o represents exactly the set `want` (a SetV)"""
    if is_abs(o):
        x = E.fresh_const("x", T3)
        E.oblige(f"{name}: content is as specified", view(o).mem(x) == want.mem(x))
        return
    w = want.mem
    x = E.fresh_const("x", T3)
    ts = o.attrs.get("_triples")
    if not isinstance(ts, SetV):
        raise Unsupported("_triples is not a set")
    E.oblige(f"{name}: content is as specified", (ts.mem(x) if ts.sort is not None else FALSE) == w(x))
    for nm, order in (("_spo", (0, 1, 2)), ("_pos", (1, 2, 0)), ("_osp", (2, 0, 1))):
        r = o.attrs.get(nm)
        if isinstance(r, DictV) and not r.d:
            # freshly built index: must create its levels on demand
            ok = r.factory is not None
            E.oblige(f"{name}: index {nm} is an empty nested index of an empty graph", z3.BoolVal(ok))
            E.oblige(f"{name}: {nm} matches content", z3.Not(w(x)))
            continue
        if not isinstance(r, IndexRef) or r.path:
            raise Unsupported(f"{nm} is not an index")
        root = r.root
        a, b, c = (E.fresh_const(n, U) for n in "abc")
        k = [None] * 3
        for pos, val in zip(order, (a, b, c)):
            k[pos] = val
        t = mk(T3, *k)
        reach = conj([root.h1(a), root.h2(a, b), root.h3(a, b, c)])
        E.oblige(f"{name}: index {nm} lists exactly the content", reach == w(t))
        E.oblige(f"{name}: index {nm} stores the triple itself", z3.Implies(w(t), root.leaf(a, b, c) == t))
        e1, e2 = z3.FreshConst(U, "k"), z3.FreshConst(U, "k")

        def tri(p, q, r_):
            kk = [None] * 3
            for pos, val in zip(order, (p, q, r_)):
                kk[pos] = val
            return mk(T3, *kk)
        E.oblige(f"{name}: index {nm} has no empty branch (level 1)", z3.Implies(root.h1(a), ex([e1, e2], w(tri(a, e1, e2)))))
        E.oblige(f"{name}: index {nm} has no empty branch (level 2)",
                 z3.Implies(conj([root.h1(a), root.h2(a, b)]), ex([e1], w(tri(a, b, e1)))))


def matches(s, p, o):
    """predicate on triple terms for a pattern of python values/terms"""
    def f(x):
        cs = []
        for pat, pr in ((s, S), (p, PR), (o, OB)):
            if pat is None:
                continue
            cs.append(disj([pat == NONE, pr(x) == pat]))
        return conj(cs)
    return f


def pat_term(E, v):
    return None if v is None else E.uterm(v)


# ---- contracts as used by callers ---------------------------------------------------------------

def contract(fn, params):
    """wrap an abstract spec: falls back to the body when the receiver has no abstract view"""
    def deco(spec):
        def c(E, args, kwargs):
            names = [n for n, _ in params]
            vals = dict(kwargs)
            if len(args) > len(names):
                raise PyRaise(ExcV(TypeError))
            for n, v in zip(names, args):
                vals[n] = v
            for n, d in params:
                if n not in vals:
                    if d is REQUIRED:
                        raise PyRaise(ExcV(TypeError))
                    vals[n] = d
            if not is_abs(vals[names[0]]):
                return E.call_func(E.func_of_real(fn), args, kwargs)
            return spec(E, **vals)
        c.fn = fn
        c.spec = spec
        CONTRACTS[fn] = c
        return c
    return deco


def dep(v):
    return getattr(v, "dep", v)


REQUIRED = object()
CONTRACTS = {}
R = REQUIRED


def triple_term(E, t):
    return E.term(t, T3)


@contract(P.Graph.add, [("self", R), ("triple", R)])
def g_add(E, self, triple):
    view(self).add(triple)
    return self


@contract(P.Graph.remove, [("self", R), ("triple", R)])
def g_remove(E, self, triple):
    t = triple_term(E, triple)
    if not E.decide(view(self).mem(t)):
        raise PyRaise(ExcV(KeyError, (triple,)))
    view(self).remove_term(t)
    return self


@contract(P.Graph.match, [("self", R), ("subject", None), ("predicate", None), ("object", None)])
def g_match(E, self, subject, predicate, object):
    ps = [pat_term(E, v) for v in (subject, predicate, object)]
    v = view(self)

    def thunk():
        x = z3.FreshConst(T3, "t")
        cs, known = [v.mem(x)], [None, None, None]
        for i, (pt, pr) in enumerate(zip(ps, (S, PR, OB))):
            if pt is None:
                continue
            if not T.feasible(E.pcs(), pt == NONE):
                known[i] = pt
            elif not T.feasible(E.pcs(), pt != NONE):
                pass
            else:
                cs.append(disj([pt == NONE, pr(x) == pt]))
        if any(k is not None for k in known):
            bs, comp = [], []
            for i, k in enumerate(known):
                if k is None:
                    b = z3.FreshConst(U, "m")
                    bs.append(b)
                    comp.append(b)
                else:
                    comp.append(k)
            if bs:
                t = mk(T3, *comp)
                g = T.subst(conj(cs), [(x, t)])
                return [Seg(bs, z3.simplify(g), TupV(P.Triple, [UV(c) for c in comp], t))]
            t = mk(T3, *comp)
            d = z3.FreshConst(T3, "t")
            return [Seg([d], conj([d == t, v.mem(t)]), E.from_term(d, T3))]
        return [Seg([x], conj(cs), E.from_term(x, T3))]
    return LazyV(thunk, "Graph.match", (dep(v),))


@contract(P.Graph.removeMatches, [("self", R), ("subject", R), ("predicate", R), ("object", R)])
def g_removeMatches(E, self, subject, predicate, object):
    m = matches(*[pat_term(E, v) for v in (subject, predicate, object)])
    view(self).apply(Aff(lambda x: z3.Not(m(x)), lambda x: FALSE, "removeMatches"))
    return self


@contract(P.Graph.addAll, [("self", R), ("graph_or_triples", R)])
def g_addAll(E, self, graph_or_triples):
    from pyvc import model
    if graph_or_triples is self:
        return self
    for s in E.segments(graph_or_triples):
        model.add_seg(E, view(self), s)
    return self


@contract(P.Graph.merge, [("self", R), ("graph", R)])
def g_merge(E, self, graph):
    a, b = view(self), view(graph)
    n = abs_graph(E, f"merged{E.counter}", uri=None, empty=True)
    n.attrs["_uri"] = None
    am, bm = a.mem, b.mem
    sa, sb = a.snap(), b.snap()
    ca = SetV(E, T3, None)
    ca.restore(sa)
    cb = SetV(E, T3, None)
    cb.restore(sb)
    view(n).apply(Aff(lambda x: TRUE, lambda x: disj([ca.mem(x), cb.mem(x)]), "merge"))
    return n


@contract(P.Graph.__contains__, [("self", R), ("item", R)])
def g_contains(E, self, item):
    if isinstance(item, (TupV, tuple)):
        n = len(item.items) if isinstance(item, TupV) else len(item)
        if n != 3:
            return False
        return BoolV(view(self).mem(triple_term(E, item)))
    return False


@contract(P.Graph.__len__, [("self", R)])
def g_len(E, self):
    from pyvc import model
    if isinstance(self, GraphAt):
        return self.gs.slice_len(E, self.k)
    return model.len_(E, [view(self)], {})


@contract(P.Graph.__iter__, [("self", R)])
def g_iter(E, self):
    v = view(self)
    return LazyV(lambda: v.segs(), "iter(Graph)", (dep(v),))


@contract(P.Graph.toArray, [("self", R)])
def g_toArray(E, self):
    from pyvc import model
    if isinstance(self, GraphAt):
        return model.make_set(E, view(self).segs(), frozenset)
    return model.copy_set(E, view(self), frozenset)


def _proj_listing(fn, i):
    @contract(fn, [("self", R)])
    def f(E, self):
        v = view(self)
        s = SetV(E, U, None)

        def A(x):
            t = z3.FreshConst(T3, "t")
            return occurs_in(v, i, x)
        k = z3.FreshConst(U, "k")
        return SeqV([Seg([k], occurs_in(v, i, k), UV(k))], (v,))
    return f


def occurs_in(v, i, x):
    a, b = z3.FreshConst(U, "o"), z3.FreshConst(U, "o")
    comp = [a, b]
    comp.insert(i, x)
    return ex([a, b], v.mem(mk(T3, *comp)))


g_subjects = _proj_listing(P.Graph.subjects, 0)
g_predicates = _proj_listing(P.Graph.predicates, 1)
g_objects = _proj_listing(P.Graph.objects, 2)


def graph_init_contract(E, args, kwargs):
    raise Unsupported("Graph.__init__ called explicitly")


def new_graph(E, args, kwargs):
    """Graph(uri): a new empty graph"""
    uri = args[0] if args else kwargs.get("graph_uri")
    g = abs_graph(E, f"new{E.counter}", empty=True)
    E.counter += 1
    if isinstance(uri, UV):
        # the name is kept for None, IRIs and strings; anything else becomes an IRI made from it
        legal = disj([uri.e == NONE, T.isNN(uri.e), T.isStr(uri.e)])
        if T.feasible(E.pcs(), z3.Not(legal)):
            made = z3.Function("nnMadeFrom", U, U)(uri.e)
            E.assume(z3.Implies(z3.Not(legal), conj([T.isNN(made), made != uri.e])))
            uri = UV(z3.If(legal, uri.e, made))
    g.attrs["_uri"] = uri
    return g


def install(E, graph_class=True):
    E.contracts.update(CONTRACTS)
    if graph_class:
        E.contracts[P.Graph] = new_graph


def engine(*more):
    def mkE():
        E = Engine()
        install(E)
        for m in more:
            m(E)
        return E
    return mkE


def shadow_of(E, g, name):
    """a spec-side copy of an abstract graph in the same state"""
    sh = Obj(E, P.Graph, dict(g.attrs), name + "'")
    v = view(g)
    n = SetV(E, T3, v.base, name=v.name + "'", card=v.card)
    n.ops = v.ops
    sh.attrs["$view"] = n
    return sh


def sym_triple(E, name="t", legal=True):
    t = z3.Const(name, T3)
    if legal:
        for f in (S, PR, OB):
            E.assume(f(t) != NONE)
    return E.from_term(t, T3)


# ---- verification tasks ----------------------------------------------------------------------------

def method_task(label, fn, args_of, concrete=True, check=None, with_graph_cls=True):
    """Body of fn refines its contract: run the body on the representation, the spec on the view."""
    def thunk(E):
        E.disabled.add(fn)
        g = abs_graph(E, "g")
        terms_not_none(E, z3.Function("V_g", T3, z3.BoolSort()))
        sh = shadow_of(E, g, "g")
        args, kwargs, sargs, skw = args_of(E, g, sh)
        if concrete:
            concretize(E, g)
        got = outcome(E, lambda: E.call(fn, [g] + args, kwargs))
        if got[0] == "ok" and isinstance(got[1], LazyV):
            # consume generators completely
            lz = got[1]
            o2 = outcome(E, lambda: ListV(E, E.segments(lz)))
            got = o2
        want = outcome(E, lambda: CONTRACTS[fn].spec(E, sh, *sargs, **skw))
        check_outcome(E, label, g, sh, got, want, fn)
        return None
    return Task(label, thunk, [fn.__qualname__])


def check_outcome(E, label, g, sh, got, want, fn):
    if want[0] == "raise":
        E.oblige(f"{label}: raises {want[1].cls.__name__} as specified",
                 z3.BoolVal(got[0] == "raise" and issubclass(got[1].cls, want[1].cls)))
        conforms(E, g, view(sh), f"{label} (after the refusal)")
        return
    if got[0] == "raise":
        E.oblige(f"{label}: does not raise ({got[1].cls.__name__})", FALSE)
        return
    compare_result(E, label, g, sh, got[1], want[1])
    conforms(E, g, view(sh), label)


def compare_result(E, label, g, sh, got, want):
    if want is sh:
        E.oblige(f"{label}: returns the graph itself", z3.BoolVal(got is g))
    elif isinstance(want, BoolV) or isinstance(want, bool):
        E.oblige(f"{label}: truth value", _zb(E, E.truth(got)) == _zb(E, E.truth(want)))
    elif isinstance(want, IntV):
        E.oblige(f"{label}: number", E.zint(got) == want.e)
    elif isinstance(want, LazyV) or isinstance(want, SeqV):
        segs = E.segments(want)
        tmp = __import__("pyvc.model", fromlist=["x"]).make_set(E, segs)
        srt = tmp.sort if tmp.sort is not None else T3
        compare_collection(E, label, got, (lambda x: tmp.mem(x)) if tmp.sort is not None else (lambda x: FALSE), srt)
    elif isinstance(want, SetV):
        if not isinstance(got, SetV):
            E.oblige(f"{label}: result is a set", FALSE)
            return
        E.oblige(f"{label}: result type", z3.BoolVal(got.cls is want.cls))
        compare_set(E, f"{label}: elements", got, want.mem, want.sort)
    elif is_abs(want):
        E.oblige(f"{label}: returns a graph", z3.BoolVal(isinstance(got, Obj) and got.cls is P.Graph))
        E.oblige(f"{label}: returns a new graph", z3.BoolVal(got is not g))
        conforms(E, got, view(want), f"{label} result")
    elif want is None:
        E.oblige(f"{label}: returns None", z3.BoolVal(got is None))
    else:
        raise Unsupported(f"result {want!r}")


def _zb(E, b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def no_args(E, g, sh):
    return [], {}, [], {}


def triple_arg(E, g, sh):
    t = sym_triple(E)
    return [t], {}, [t], {}


def pattern_args(E, g, sh):
    ps = [UV(z3.Const(n, U)) for n in ("s", "p", "o")]
    return list(ps), {}, list(ps), {}


def seq_arg(E, g, sh):
    """an arbitrary finite collection of triples"""
    X = z3.Function("X", T3, z3.BoolSort())
    x = z3.FreshConst(T3, "x")
    terms_not_none(E, X)
    mkseq = lambda: SeqV([Seg([x], X(x), E.from_term(x, T3))])
    return [mkseq()], {}, [mkseq()], {}


def other_graph(E, g, sh):
    h = abs_graph(E, "h")
    terms_not_none(E, z3.Function("V_h", T3, z3.BoolSort()))
    h2 = shadow_of(E, h, "h")
    E.other = (h, h2)
    return [h], {}, [h2], {}


def alias_graph(E, g, sh):
    E.other = None
    return [g], {}, [sh], {}


def init_task():
    def thunk(E):
        E.disabled.add(P.Graph.__init__)
        uri = UV(z3.Const("u", U))
        E.assume(disj([uri.e == NONE, T.isNN(uri.e), T.isStr(uri.e)]))
        o = Obj(E, P.Graph)
        got = outcome(E, lambda: E.call(P.Graph.__init__, [o, uri], {}))
        E.oblige("Graph.__init__: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            for k in ("_triples", "_spo", "_pos", "_osp"):
                if k not in o.attrs:
                    raise Unsupported(f"no {k}")
            empty = SetV(E, T3, lambda x: FALSE)
            conforms(E, o, empty, "Graph.__init__")
            E.oblige("Graph.__init__: the graph remembers its name",
                     E.uterm(E.getattr_(o, "uri")) == uri.e)
    return Task("Graph.__init__", thunk, ["Graph.__init__", "Index", "Graph.uri"])


def index_shape_task():
    """Index() is a mapping that creates nested Index levels on demand (fact used by the index model)."""
    def thunk(E):
        import collections
        r = outcome(E, lambda: E.call(P.Index, [], {}))
        ok = r[0] == "ok" and isinstance(r[1], DictV) and not r[1].d and r[1].factory is not None
        E.oblige("Index: a new index is empty and creates levels on demand", z3.BoolVal(bool(ok)))
        if ok:
            r2 = outcome(E, lambda: E.call(r[1].factory, [], {}))
            ok2 = r2[0] == "ok" and isinstance(r2[1], DictV) and not r2[1].d and r2[1].factory is not None
            E.oblige("Index: the created level is again an index", z3.BoolVal(bool(ok2)))
    return Task("Index", thunk, ["Index"])


def c01_tasks():
    G = P.Graph
    ts = [init_task(), index_shape_task(),
          method_task("Graph.add", G.add, triple_arg),
          method_task("Graph.remove", G.remove, triple_arg),
          method_task("Graph.__contains__", G.__contains__, triple_arg),
          method_task("Graph.__len__", G.__len__, no_args),
          method_task("Graph.__iter__", G.__iter__, no_args),
          method_task("Graph.toArray", G.toArray, no_args),
          method_task("Graph.addAll", G.addAll, seq_arg, concrete=False),
          method_task("Graph.addAll(other graph)", G.addAll, other_graph, concrete=False),
          method_task("Graph.removeMatches", G.removeMatches, pattern_args, concrete=False),
          frame_task("Graph.merge", G.merge, other_graph),
          frame_task("Graph.merge (with itself)", G.merge, alias_graph),
          ] + [create_task(k) for k in ("a sequence", "a graph", "nothing")]
    return ts


def create_task(kind):
    """RDFEnvironment.createGraph: a new graph of exactly the given triples"""
    nm = f"RDFEnvironment.createGraph({kind})"

    def thunk(E):
        env = Obj(E, P.RDFEnvironment, {}, "env")
        args, h2, want = [], None, (lambda x: FALSE)
        if kind == "a sequence":
            args = seq_arg(E, None, None)[0]
            want = z3.Function("X", T3, z3.BoolSort())
        elif kind == "a graph":
            args = other_graph(E, None, None)[0]
            h2 = E.other[1]
            want = view(h2).mem
        got = outcome(E, lambda: E.call(E.getattr_(env, "createGraph"), args, {}))
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        g = got[1]
        E.oblige(f"{nm}: returns a new graph", z3.BoolVal(is_abs(g) and not any(g is a for a in args)))
        if is_abs(g):
            x = E.fresh_const("x", T3)
            E.oblige(f"{nm}: holds exactly the given triples", view(g).mem(x) == want(x))
        if h2 is not None:
            conforms(E, args[0], view(h2), f"{nm}: the argument is unchanged")
        E.oblige(f"{nm}: the environment is unchanged", z3.BoolVal(all(k.startswith("$") for k in env.attrs)))
    return Task(nm, thunk, ["RDFEnvironment.createGraph"])


def frame_task(label, fn, args_of):
    def thunk(E):
        E.disabled.add(fn)
        g = abs_graph(E, "g")
        terms_not_none(E, z3.Function("V_g", T3, z3.BoolSort()))
        sh = shadow_of(E, g, "g")
        args, kwargs, sargs, skw = args_of(E, g, sh)
        got = outcome(E, lambda: E.call(fn, [g] + args, kwargs))
        want = outcome(E, lambda: CONTRACTS[fn].spec(E, sh, *sargs, **skw))
        check_outcome(E, label, g, sh, got, want, fn)
        if E.other:
            conforms(E, E.other[0], view(E.other[1]), f"{label}: the argument is unchanged")
            if got[0] == "ok":
                E.oblige(f"{label}: result is not the argument", z3.BoolVal(got[1] is not E.other[0]))
    return Task(label, thunk, [fn.__qualname__])


def c02_tasks():
    G = P.Graph
    return [init_task(),
            method_task("Graph.add", G.add, triple_arg),
            method_task("Graph.remove", G.remove, triple_arg),
            method_task("Graph.match", G.match, pattern_args),
            method_task("Graph.subjects", G.subjects, no_args),
            method_task("Graph.predicates", G.predicates, no_args),
            method_task("Graph.objects", G.objects, no_args),
            ]

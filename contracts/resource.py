"""C12-C15: pymantic.rdf.Resource and List over an arbitrary graph (Graph by its proved contract)."""
import z3
import pymantic.primitives as P
import pymantic.rdf as RD
import pymantic.util as UT
from pyvc import terms as T
from pyvc.core import Engine
from pyvc.terms import U, T3, NONE, STR, mk, proj, conj, disj, ex
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.verify import *
from . import graph
from .graph import S, PR, OB, abs_graph, view

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD_STRING = "http://www.w3.org/2001/XMLSchema#string"
LM = z3.Function("lang_matches", U, U, z3.BoolSort())
RES = z3.Function("resolve", U, U)
OFC = z3.Function("of_class", U, z3.BoolSort())
MKLIT = T.mkLit
RESOF = z3.Function("resOf", U, U)
SUBJ = z3.Function("subjectOf", U, U)
ISRES = z3.Function("isResource", U, z3.BoolSort())


def real(f):
    return getattr(f, "__func__", f)


RESOLVE, CLASSIFY = real(RD.Resource.resolve), real(RD.Resource.classify)


def c_lang_match(E, args, kwargs):
    a, b = (list(args) + [kwargs[k] for k in ("lang1", "lang2") if k in kwargs])[:2]
    x, y = E.uterm(a), E.uterm(b)
    E.assume(LM(x, y) == LM(y, x))
    E.assume(z3.Implies(x == y, LM(x, y)))
    for p, q in ((x, y), (y, x)):
        E.assume(z3.Implies(conj([p == NONE, q != NONE]), z3.Not(LM(p, q))))
        E.assume(z3.Implies(conj([p == NONE, q == NONE]), LM(p, q)))
    return BoolV(LM(x, y))


def c_resolve(E, args, kwargs):
    k = args[1] if len(args) > 1 else kwargs["key"]
    if isinstance(k, TupV):
        raise PyRaise(ExcV(TypeError))
    e = RES(E.uterm(k))
    E.assume(conj([T.isNN(e), z3.Not(T.isLit(e)), z3.Not(T.isBN(e)), e != NONE]))
    return UV(e)


def resource(g, subj):
    return RecV(RD.Resource, {"graph": g, "subject": UV(subj), "$exact": False})


def c_classify(E, args, kwargs):
    vals = dict(zip(("cls", "graph", "obj"), args))
    vals.update(kwargs)
    g, o = vals["graph"], vals["obj"]
    if o is None:
        return None
    e = E.uterm(o)
    if E.decide(e == NONE):
        return None
    if E.decide(T.isLit(e)):
        return o
    return resource(g, e)


def c_one_or_none(E, args, kwargs):
    """proved in one_or_none_task"""
    v = args[0] if args else kwargs["values"]
    segs = E.segments(v)
    if not E.decide(E.nonempty(v)):
        return None
    two = []
    for i, s in enumerate(segs):
        for j in range(i + 1):
            s2 = segs[j]
            if isinstance(s, One) and isinstance(s2, One):
                if i != j:
                    two.append(TRUE)
                continue
            b1 = [] if isinstance(s, One) else [z3.FreshConst(b.sort(), "b") for b in s.bs]
            b2 = [] if isinstance(s2, One) else [z3.FreshConst(b.sort(), "b") for b in s2.bs]
            g1 = TRUE if isinstance(s, One) else s.inst(b1)[0]
            g2 = TRUE if isinstance(s2, One) else s2.inst(b2)[0]
            d = z3.Not(conj([x == y for x, y in zip(b1, b2)])) if i == j else TRUE
            two.append(ex(b1 + b2, conj([g1, g2, d])))
    if E.decide(disj(two) if two else FALSE):
        raise PyRaise(ExcV(ValueError))
    from pyvc import model
    return model.pick(E, segs, IndexError)


def engine(**opt):
    def mkE():
        E = Engine()
        for f, c in graph.CONTRACTS.items():
            E.contracts[f] = c
        E.contracts[P.lang_match] = c_lang_match
        E.contracts[RESOLVE] = c_resolve
        E.contracts[CLASSIFY] = c_classify
        E.contracts[UT.one_or_none] = c_one_or_none
        E.u_isinstance_hook = lambda E_, v, cls: ISRES(v.e) if cls is RD.Resource else (FALSE if cls is RD.MetaResource else None)
        E.u_getattr_hook = lambda E_, v, name: UV(SUBJ(v.e)) if name == "subject" and not T.feasible(E_.pcs(), z3.Not(ISRES(v.e))) else None
        return E
    return mkE


# ---- state ---------------------------------------------------------------------------------------

def kinds(E, mem):
    """RDF data: every component has a kind; a literal never has both a language and a datatype"""
    x = z3.FreshConst(T3, "x")
    s, p, o = S(x), PR(x), OB(x)
    ok = conj([disj([T.isNN(s), T.isBN(s)]), T.isNN(p), disj([T.isNN(o), T.isBN(o), T.isLit(o)]),
               s != NONE, p != NONE, o != NONE])
    E.assume(T.forall([x], z3.Implies(mem(x), ok), patterns=[mem(x)]))


RDFLIT = z3.Function("rdfLiteral", U, z3.BoolSort())


def literal_axioms(E, mem):
    """the literals of RDF data (those in graphs and those handed in) never have both a language and a datatype"""
    u, x = z3.FreshConst(U, "u"), z3.FreshConst(T3, "x")
    E.assume(T.forall([x], z3.Implies(conj([mem(x), T.isLit(OB(x))]), RDFLIT(OB(x))), patterns=[mem(x)]))
    E.assume(T.forall([u], z3.Implies(RDFLIT(u), conj([T.isLit(u), disj([T.lang(u) == NONE, T.dt(u) == NONE]),
                                                      disj([T.lang(u) == NONE, T.truthy(T.lang(u))]),
                                                      disj([T.dt(u) == NONE, conj([T.truthy(T.dt(u)), T.isNN(T.dt(u))])])])),
                       patterns=[RDFLIT(u)]))
    l = z3.FreshConst(U, "l")
    E.assume(T.forall([l], z3.Implies(l != NONE, z3.Not(LM(l, NONE))), patterns=[LM(l, NONE)]))


class St:
    def __init__(self, E, cls=RD.Resource, scalars=True, name="g"):
        self.E = E
        self.g = abs_graph(E, name)
        self.mem0 = z3.Function(f"V_{name}", T3, z3.BoolSort())
        kinds(E, self.mem0)
        literal_axioms(E, self.mem0)
        self.s = z3.Const("subject", U)
        E.assume(conj([disj([T.isNN(self.s), T.isBN(self.s)]), self.s != NONE]))
        attrs = {"graph": self.g, "subject": UV(self.s)}
        if scalars:
            sc = z3.Function("scalar", U, z3.BoolSort())
            self.scalar = sc
            attrs["scalars"] = SetV(E, U, lambda x: sc(x), cls=frozenset, name="scalars")
            self.lang = z3.Const("class_lang", U)
            E.assume(conj([T.isStr(self.lang), T.truthy(self.lang), z3.Not(T.isNN(self.lang)), self.lang != NONE]))
            attrs["lang"] = UV(self.lang)
        self.r = Obj(E, cls, attrs, name="resource")

    def has(self, p):
        return lambda o: self.mem0(mk(T3, self.s, p, o))


def bylang(l):
    return lambda o: conj([T.isLit(o), T.lang(o) != NONE, LM(l, T.lang(o))])


def resources(o):
    return disj([T.isNN(o), T.isBN(o)])


def dated(o):
    return conj([T.isLit(o), T.dt(o) != NONE])


def bare(o):
    return conj([T.isLit(o), T.lang(o) == NONE, T.dt(o) == NONE])


def bydt(d):
    return lambda o: conj([T.isLit(o), T.dt(o) == d])


KEYS = ["plain", "none", "lang", "lang empty", "datatype", "datatype string", "datatype empty", "class"]


def make_key(E, st, kind):
    """-> (python key, predicate term, selection predicate on objects)"""
    k = z3.Const("key", U)
    E.assume(conj([disj([T.isStr(k), T.isNN(k)]), k != NONE, z3.Not(T.isLit(k)), z3.Not(T.isBN(k))]))
    p = RES(k)
    E.assume(T.isNN(p))
    here = st.has(p)
    sc = st.scalar(p)

    def some(f):
        o = z3.FreshConst(U, "o")
        return ex([o], conj([here(o), f(o)]))

    if kind == "plain":
        L = bylang(st.lang)

        def sel(o):
            chain = z3.If(some(L), L(o), z3.If(some(resources), resources(o), z3.If(some(dated), dated(o), bare(o))))
            return conj([here(o), z3.Implies(sc, chain)])
        return UV(k), p, sel, sc
    if kind == "none":
        return TupV(tuple, [UV(k), None]), p, here, FALSE
    f = z3.Const("filter", U)
    both = lambda g: (lambda o: conj([here(o), disj([g(o), conj([z3.Not(sc), resources(o)])])]))
    if kind == "lang":
        E.assume(conj([T.isStr(f), T.truthy(f), z3.Not(T.isNN(f)), f != NONE]))
        return TupV(tuple, [UV(k), UV(f)]), p, both(bylang(f)), sc
    if kind == "lang empty":
        return TupV(tuple, [UV(k), ""]), p, lambda o: conj([here(o), bare(o)]), sc
    if kind == "datatype":
        E.assume(conj([T.isNN(f), T.truthy(f), f != NONE, f != T.ofStr(zstr(XSD_STRING)), f != T.ofStr(zstr(""))]))
        return TupV(tuple, [UV(k), UV(f)]), p, both(bydt(f)), sc
    if kind == "datatype string":
        return TupV(tuple, [UV(k), P.NamedNode(XSD_STRING)]), p, lambda o: conj([here(o), bare(o)]), sc
    if kind == "datatype empty":
        return TupV(tuple, [UV(k), P.NamedNode("")]), p, lambda o: conj([here(o), bare(o)]), sc
    if kind == "class":
        c = a_class()
        return TupV(tuple, [UV(k), c]), p, lambda o: conj([here(o), resources(o), OFC(o)]), sc


def a_class():
    def isinst(v):
        if isinstance(v, RecV) and "$cls_ok" in v.fields:
            return v.fields["$cls_ok"]
        if isinstance(v, RecV) and "subject" in v.fields:
            return OFC(v.fields["subject"].e)
        if isinstance(v, UV):
            return conj([ISRES(v.e), OFC(SUBJ(v.e))])
        if isinstance(v, (TupV, str, StrV, type(None))):
            return False
        raise Unsupported(f"isinstance({v!r}, a class)")
    return OpaqueV("SomeClass", RD.MetaResource, {"$truth": True, "$instances": isinst})


def node_segs(E, nm, v):
    """segments of classified objects -> segments of their nodes, obliging that classification was applied"""
    out = []
    for s in E.segments(v):
        e = s.elem
        g = TRUE if isinstance(s, One) else s.guard
        bs = [] if isinstance(s, One) else s.bs
        if isinstance(e, RecV) and "subject" in e.fields:
            t, want = E.uterm(e.fields["subject"]), False
        elif isinstance(e, UV):
            t, want = e.e, True
        else:
            E.oblige(f"{nm}: every result is a classified object", z3.Not(ex(bs, g)))
            continue
        new = [E.fresh_const("b", b.sort()) for b in bs]
        p = list(zip(bs, new))
        E.oblige(f"{nm}: nodes are returned as resources, literals as they are",
                 z3.Implies(T.subst(g, p), T.isLit(T.subst(t, p)) if want else z3.Not(T.isLit(T.subst(t, p)))))
        out.append(One(UV(t)) if isinstance(s, One) else Seg(bs, g, UV(t)))
    return SeqV(out)


def same_graph(E, nm, st):
    x = E.fresh_const("x", T3)
    E.oblige(f"{nm}: the graph is unchanged", view(st.g).mem(x) == st.mem0(x))


def read_task(kind, method="__getitem__"):
    def thunk(E):
        st = St(E)
        key, p, sel, sc = make_key(E, st, kind)
        got = outcome(E, lambda: E.call(E.getattr_(st.r, method), [key], {}))
        nm = f"Resource.{method}({kind})"
        o = E.fresh_const("o", U)
        o1, o2 = z3.FreshConst(U, "o"), z3.FreshConst(U, "o")
        if method == "get_scalar":
            sc = TRUE
        if E.decide(sc):
            none = z3.Not(ex([o1], sel(o1)))
            many = ex([o1, o2], conj([sel(o1), sel(o2), o1 != o2]))
            if got[0] == "raise":
                E.oblige(f"{nm}: refuses only several values", conj([many, z3.BoolVal(issubclass(got[1].cls, ValueError))]))
            elif got[1] is None or (isinstance(got[1], UV) and not T.feasible(E.pcs(), got[1].e != NONE)):
                E.oblige(f"{nm}: gives None exactly when nothing is selected", none)
            else:
                v = got[1]
                segs = node_segs(E, nm, SeqV([One(v)])).segs
                if segs:
                    t = segs[0].elem.e
                    E.oblige(f"{nm}: gives the selected object", sel(t))
                    E.oblige(f"{nm}: only when it is the only one", z3.Implies(sel(o), o == t))
        else:
            E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
            if got[0] != "ok":
                return
            r = outcome(E, lambda: node_segs(E, nm, got[1]))
            E.oblige(f"{nm}: can be iterated", z3.BoolVal(r[0] == "ok"))
            if r[0] == "ok":
                compare_collection(E, nm, r[1], sel, U)
        same_graph(E, nm, st)
    return Task(f"Resource.{method}[{kind}]", thunk, [f"Resource.{method}", "Resource._objects_for_key", "Resource._interpret_key"])


def contains_task(kind):
    def thunk(E):
        st = St(E)
        key, p, sel, sc = make_key(E, st, kind)
        got = outcome(E, lambda: E.call(E.getattr_(st.r, "__contains__"), [key], {}))
        nm = f"Resource.__contains__({kind})"
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        o = z3.FreshConst(U, "o")
        t = E.truth(got[1])
        E.oblige(f"{nm}: true exactly when the key selects an object",
                 (z3.BoolVal(t) if isinstance(t, bool) else t) == ex([o], sel(o)))
        same_graph(E, nm, st)
    return Task(f"Resource.__contains__[{kind}]", thunk, ["Resource.__contains__", "Resource._objects_for_key"])


def del_task(kind):
    def thunk(E):
        st = St(E)
        key, p, sel, sc = make_key(E, st, kind)
        got = outcome(E, lambda: E.call(E.getattr_(st.r, "__delitem__"), [key], {}))
        nm = f"Resource.__delitem__({kind})"
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        x = E.fresh_const("x", T3)
        E.oblige(f"{nm}: removes exactly the links to the selected objects",
                 view(st.g).mem(x) == conj([st.mem0(x), z3.Not(conj([S(x) == st.s, PR(x) == p, sel(OB(x))]))]))
    return Task(f"Resource.__delitem__[{kind}]", thunk, ["Resource.__delitem__", "Resource._objects_for_key"])


def lang_match_task():
    def thunk(E):
        E.disabled.add(P.lang_match)
        a, b = z3.Const("a", STR), z3.Const("b", STR)
        for x in (None, sv(a)):
            for y in (None, sv(b)):
                got = outcome(E, lambda: E.call(P.lang_match, [x, y], {}))
                E.oblige("lang_match: does not raise", z3.BoolVal(got[0] == "ok"))
                if got[0] != "ok":
                    continue
                t = E.truth(got[1])
                t = z3.BoolVal(t) if isinstance(t, bool) else t
                if x is None or y is None:
                    E.oblige("lang_match: None matches only None", t == z3.BoolVal(x is None and y is None))
                    continue
                dash = z3.StringVal("-")

                def parts(s):
                    i = z3.IndexOf(s, dash, 0)
                    return (z3.If(i < 0, s, z3.SubString(s, 0, i)),
                            z3.If(i < 0, z3.StringVal(""), z3.SubString(s, i + 1, z3.Length(s) - i - 1)))
                E.oblige("lang_match: a language matches itself", z3.Implies(a == b, t))
                (p1, r1), (p2, r2) = parts(a), parts(b)
                E.oblige("lang_match: same primary tag, and the same region unless one has none",
                         t == conj([p1 == p2, disj([r1 == z3.StringVal(""), r2 == z3.StringVal(""), r1 == r2])]))
    return Task("lang_match", thunk, ["lang_match"])


def is_language_task():
    def thunk(E):
        u = z3.Const("u", U)
        got = outcome(E, lambda: E.call(P.is_language, [UV(u)], {}))
        ok = got[0] == "ok"
        E.oblige("is_language: does not raise", z3.BoolVal(ok))
        if ok:
            t = E.truth(got[1])
            E.oblige("is_language: everything but an IRI", (z3.BoolVal(t) if isinstance(t, bool) else t) == z3.Not(T.isNN(u)))
    return Task("is_language", thunk, ["is_language"])


def one_or_none_task():
    def thunk(E):
        E.disabled.add(UT.one_or_none)
        us = [UV(z3.Const(f"v{i}", U)) for i in range(3)]
        for n in range(4):
            got = outcome(E, lambda: E.call(UT.one_or_none, [ListV(E, [One(u) for u in us[:n]])], {}))
            if n == 0:
                E.oblige("one_or_none: None for nothing", z3.BoolVal(got[0] == "ok" and got[1] is None))
            elif n == 1:
                ok = got[0] == "ok"
                E.oblige("one_or_none: accepts one value", z3.BoolVal(ok))
                if ok:
                    same_value(E, "one_or_none: gives the only value", got[1], us[0])
            else:
                E.oblige("one_or_none: refuses several values", z3.BoolVal(got[0] == "raise" and issubclass(got[1].cls, ValueError)))
        n = z3.Const("n", z3.IntSort())
        E.assume(n >= 2)
        i = z3.FreshConst(z3.IntSort(), "i")
        seq = SeqV([Seg([i], conj([i >= 0, i < n]), UV(z3.Function("elem", z3.IntSort(), U)(i)))])
        seq.count = n
        got = outcome(E, lambda: E.call(UT.one_or_none, [seq], {}))
        E.oblige("one_or_none: refuses any larger number of values", z3.BoolVal(got[0] == "raise" and issubclass(got[1].cls, ValueError)))
    return Task("one_or_none", thunk, ["util.one_or_none"])


def iter_task():
    def thunk(E):
        st = St(E)
        got = outcome(E, lambda: SeqV(E.segments(E.call(E.getattr_(st.r, "__iter__"), [], {}))))
        E.oblige("Resource.__iter__: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            compare_collection(E, "Resource.__iter__: its predicates and objects", got[1],
                               lambda t: st.mem0(mk(T3, st.s, proj(T.P2, 0, t), proj(T.P2, 1, t))), T.P2)
        same_graph(E, "Resource.__iter__", st)
    return Task("Resource.__iter__", thunk, ["Resource.__iter__"])


def object_of_task(given):
    def thunk(E):
        st = St(E)
        k = z3.Const("key", U)
        E.assume(conj([disj([T.isStr(k), T.isNN(k)]), k != NONE, z3.Not(T.isLit(k)), z3.Not(T.isBN(k))]))
        got = outcome(E, lambda: E.segments(E.call(E.getattr_(st.r, "object_of"), [UV(k)] if given else [], {})))
        nm = f"Resource.object_of({'predicate' if given else ''})"
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        if given:
            c = node_segs(E, nm, SeqV(got[1]))
            compare_collection(E, nm, c, lambda u: st.mem0(mk(T3, u, RES(k), st.s)), U)
        else:
            out = []
            for s in got[1]:
                e = s.elem
                ok = isinstance(e, TupV) and len(e.items) == 2
                E.oblige(f"{nm}: gives pairs", z3.BoolVal(bool(ok)))
                if not ok:
                    return
                one = node_segs(E, nm, SeqV([Seg(s.bs, s.guard, e.items[0])])).segs
                for q in one:
                    out.append(Seg(q.bs, q.guard, TupV(tuple, [q.elem, e.items[1]])))
            compare_collection(E, nm, SeqV(out), lambda t: st.mem0(mk(T3, proj(T.P2, 0, t), proj(T.P2, 1, t), st.s)), T.P2)
        same_graph(E, nm, st)
    return Task(f"Resource.object_of[{'predicate' if given else 'any'}]", thunk, ["Resource.object_of"])


def resolve_task():
    """Resource.resolve: the class's prefixes, else the global profile (both by contract)"""
    def thunk(E):
        E.disabled.add(RESOLVE)
        k = z3.Const("key", STR)
        bound = z3.Bool("prefix_bound")
        pres, gres = z3.Function("prefixes_resolve", STR, STR), z3.Function("profile_resolve", STR, STR)

        def pm(E_, a, kw):
            if not E_.decide(bound):
                raise PyRaise(ExcV(ValueError))
            return sv(pres(E_.zstr(a[1])), P.NamedNode)
        E.contracts[P.PrefixMap.resolve] = pm
        E.contracts[P.Profile.resolve] = lambda E_, a, kw: sv(gres(E_.zstr(a[1])), P.NamedNode)
        got = outcome(E, lambda: E.call(E.getattr_(RD.Resource, "resolve"), [sv(k)], {}))
        ok = got[0] == "ok" and isinstance(got[1], StrV)
        E.oblige("Resource.resolve: gives an IRI", z3.BoolVal(bool(ok)))
        if ok:
            E.oblige("Resource.resolve: by its own prefixes, else by the global profile", E.zstr(got[1]) == z3.If(bound, pres(k), gres(k)))
    return Task("Resource.resolve", thunk, ["Resource.resolve"])


def c12_tasks():
    ts = [read_task(k) for k in KEYS] + [read_task(k, "get_scalar") for k in KEYS]
    ts += [contains_task(k) for k in KEYS] + [del_task(k) for k in KEYS]
    ts += [lang_match_task(), is_language_task(), one_or_none_task(), iter_task(), object_of_task(True), object_of_task(False), resolve_task()]
    return ts


# ---- C13 ------------------------------------------------------------------------------------------

def resource_axioms(E):
    u = z3.FreshConst(U, "u")
    E.assume(T.forall([u], z3.Implies(disj([T.isNN(u), T.isBN(u)]), conj([ISRES(RESOF(u)), SUBJ(RESOF(u)) == u, RESOF(u) != NONE, z3.Not(T.isLit(RESOF(u))), z3.Not(T.isNN(RESOF(u))),
                                 z3.Not(T.isBN(RESOF(u))), z3.Not(T.isStr(RESOF(u)))])), patterns=[RESOF(u)]))
    E.assume(T.forall([u], z3.Implies(ISRES(u), conj([z3.Not(T.isLit(u)), z3.Not(T.isNN(u)), z3.Not(T.isBN(u)), z3.Not(T.isStr(u)), u != NONE,
                                                      u == RESOF(SUBJ(u)), disj([T.isNN(SUBJ(u)), T.isBN(SUBJ(u))]), SUBJ(u) != NONE])), patterns=[ISRES(u)]))


ELEM_KINDS = ("lit", "node", "resource", "str")


def one_kind(u, ks=ELEM_KINDS):
    f = {"lit": T.isLit(u), "node": disj([T.isNN(u), T.isBN(u)]), "resource": ISRES(u),
         "str": conj([T.isStr(u), z3.Not(T.isNN(u)), z3.Not(T.isBN(u)), z3.Not(T.isLit(u)), z3.Not(ISRES(u))])}
    base = [u != NONE, z3.Implies(T.isLit(u), RDFLIT(u))]
    base.append(z3.Implies(disj([T.isNN(u), T.isBN(u)]), conj([z3.Not(T.isLit(u)), z3.Not(ISRES(u))])))
    return conj(base + [disj([f[k] for k in ks])])


VALUES = ["literal", "node", "resource", "str", "int", "set", "frozenset", "list", "pair of literal and string", "pair of node and resource", "empty"]


def make_value(E, kind):
    """-> (python value, is_sequence, [(seg bound vars, guard, U term or special)])"""
    v = z3.Const("value", U)
    if kind == "literal":
        E.assume(conj([T.isLit(v), RDFLIT(v)]))
        return UV(v), False, [((), TRUE, v, "lit")]
    if kind == "node":
        E.assume(conj([disj([T.isNN(v), T.isBN(v)]), z3.Not(T.isLit(v)), z3.Not(ISRES(v)), v != NONE]))
        return UV(v), False, [((), TRUE, v, "node")]
    if kind == "resource":
        s = z3.Const("value_subject", U)
        E.assume(conj([disj([T.isNN(s), T.isBN(s)]), z3.Not(T.isLit(s)), s != NONE]))
        return RecV(RD.Resource, {"graph": OpaqueV("some graph"), "subject": UV(s), "$exact": False, "$cls_ok": z3.Bool("value_of_class")}), False, [((), TRUE, s, "resource")]
    if kind == "str":
        E.assume(conj([T.isStr(v), z3.Not(T.isNN(v)), z3.Not(T.isBN(v)), z3.Not(T.isLit(v)), z3.Not(ISRES(v)), v != NONE]))
        return UV(v), False, [((), TRUE, v, "str")]
    if kind == "int":
        i = z3.Const("number", z3.IntSort())
        return IntV(i), False, [((), TRUE, i, "int")]
    M = z3.Function("in_value", U, z3.BoolSort())
    x = z3.FreshConst(U, "e")
    if kind in ("set", "frozenset"):
        E.assume(T.forall([x], z3.Implies(M(x), one_kind(x)), patterns=[M(x)]))
        return SetV(E, U, lambda y: M(y), cls=set if kind == "set" else frozenset, name="the value"), True, [((x,), M(x), x, "any")]
    if kind == "list":
        n, f, i = z3.Const("n", z3.IntSort()), z3.Function("at", z3.IntSort(), U), z3.FreshConst(z3.IntSort(), "i")
        E.assume(T.forall([i], z3.Implies(conj([i >= 0, i < n]), one_kind(f(i))), patterns=[f(i)]))
        return ListV(E, [Seg([i], conj([i >= 0, i < n]), UV(f(i)))]), True, [((i,), conj([i >= 0, i < n]), f(i), "any")]
    if kind.startswith("pair"):
        us = [z3.Const(f"value{j}", U) for j in range(2)]
        for u, k in zip(us, ("lit", "str") if "literal" in kind else ("node", "resource")):
            E.assume(one_kind(u, (k,)))
        return TupV(tuple, [UV(u) for u in us]), True, [((), TRUE, u, "any") for u in us]
    if kind == "empty":
        return ListV(E, []), True, []


XSD_INTEGER = "http://www.w3.org/2001/XMLSchema#integer"


def element_spec(u, kind, lang, dtt):
    """list of (condition, object term, is_resource) for one given value under the key's language/datatype"""
    if kind == "int":
        return [(TRUE, MKLIT(INTLIT(u), NONE, T.ofStr(zstr(XSD_INTEGER))), False)]
    lit = MKLIT(u, lang, dtt)
    node = disj([T.isNN(u), T.isBN(u)])
    if kind == "lit":
        return [(TRUE, u, False)]
    if kind == "node":
        return [(TRUE, u, True)]
    if kind == "resource":
        return [(TRUE, u, True)]
    if kind == "str":
        return [(TRUE, lit, False)]
    return [(T.isLit(u), u, False), (node, u, True), (ISRES(u), SUBJ(u), True),
            (conj([z3.Not(T.isLit(u)), z3.Not(node), z3.Not(ISRES(u))]), lit, False)]


def INTLIT(i):
    """the decimal form of an integer"""
    return T.ofStr(z3.If(i >= 0, z3.IntToStr(i), z3.Concat(zstr("-"), z3.IntToStr(-i))))


def set_task(kind, vkind):
    def thunk(E):
        st = St(E)
        resource_axioms(E)
        u = z3.FreshConst(U, "u")
        E.assume(T.forall([u], LM(u, u), patterns=[LM(u, u)]))
        key, p, _, sc = make_key(E, st, kind)
        f = z3.Const("filter", U)
        value, seq, elems = make_value(E, vkind)
        got = outcome(E, lambda: E.call(E.getattr_(st.r, "__setitem__"), [key, value], {}))
        nm = f"Resource.__setitem__({kind}, {vkind})"
        here = st.has(p)
        lang = z3.If(sc, st.lang, NONE) if kind == "plain" else (f if kind == "lang" else NONE)
        dtt = f if kind == "datatype" else NONE
        specs = [(bs, g, c, t, r) for bs, g, v, k in elems for c, t, r in element_spec(v, k, lang, dtt)]

        def new(o):
            alts = []
            for bs, g, c, t, r in specs:
                nb = [z3.FreshConst(b.sort(), "b") for b in bs]
                q = list(zip(bs, nb))
                alts.append(ex(nb, conj([T.subst(g, q), T.subst(c, q), o == T.subst(t, q)])))
            return disj(alts) if alts else FALSE

        def every(test):
            """test(t, is_resource) for every given value"""
            cs = []
            for bs, g, c, t, r in specs:
                nb = [z3.FreshConst(b.sort(), "b") for b in bs]
                q = list(zip(bs, nb))
                body = z3.Implies(conj([g, c]), test(t, r))
                cs.append(T.forall(nb, T.subst(body, q)) if bs else body)
            return conj(cs)
        if kind == "plain":
            refused = sc if seq else FALSE
            if seq:
                removed = lambda o: TRUE
            else:
                (_, _, c, t, r), = specs
                tagged = conj([sc, z3.BoolVal(not r), T.lang(t) != NONE]) if not r else FALSE
                removed = lambda o: disj([z3.Not(tagged), conj([T.isLit(o), T.lang(o) != NONE, LM(T.lang(t), T.lang(o))]), dated(o), resources(o), bare(o)])
        else:
            cls_ok = (lambda t: z3.Bool("value_of_class")) if vkind == "resource" else OFC
            if kind == "lang":
                okv = lambda t, r: TRUE if r else conj([T.lang(t) != NONE, LM(T.lang(t), f)])
                removed = lambda o: disj([bylang(f)(o), resources(o), conj([sc, dated(o)])])
            elif kind == "datatype":
                okv = lambda t, r: TRUE if r else T.dt(t) == f
                removed = lambda o: disj([sc, bydt(f)(o), resources(o)])
            else:
                okv = lambda t, r: cls_ok(t) if r else FALSE
                removed = lambda o: disj([sc, conj([resources(o), OFC(o)])])
            refused = z3.Not(every(okv))
        x = E.fresh_const("x", T3)
        mine = conj([S(x) == st.s, PR(x) == p])
        if got[0] == "raise":
            E.oblige(f"{nm}: refuses only what the key does not admit, with ValueError",
                     conj([z3.BoolVal(issubclass(got[1].cls, ValueError)), refused]))
            E.oblige(f"{nm}: a refused assignment leaves the graph unchanged", view(st.g).mem(x) == st.mem0(x))
            return
        E.oblige(f"{nm}: refuses what the key does not admit", z3.Not(refused))
        E.oblige(f"{nm}: other subjects and predicates are untouched", z3.Implies(z3.Not(mine), view(st.g).mem(x) == st.mem0(x)))
        now = view(st.g).mem
        E.oblige(f"{nm}: the old objects the key does not govern are kept", z3.Implies(conj([mine, st.mem0(x), z3.Not(removed(OB(x)))]), now(x)))
        for bs, g, c, t, r in specs:
            q = [(b, E.fresh_const("given", b.sort())) for b in bs]
            E.oblige(f"{nm}: every given value becomes an object", z3.Implies(conj([T.subst(g, q), T.subst(c, q)]), now(mk(T3, st.s, p, T.subst(t, q)))))
        E.oblige(f"{nm}: nothing but the given values and the old objects the key does not govern",
                 z3.Implies(conj([mine, now(x)]), disj([conj([st.mem0(x), z3.Not(removed(OB(x)))]), new(OB(x))])))
    return Task(f"Resource.__setitem__[{kind},{vkind}]", thunk,
                ["Resource.__setitem__", "Resource._interpret_key", "Resource._objects_for_implicit_set", "Resource._objects_for_explicit_set",
                 "literalize", "objectify_value", "check_objects"])


def c13_tasks():
    return [set_task(k, v) for k in ("plain", "lang", "datatype", "class") for v in VALUES]

"""C18: contracts of pymantic.parsers.jsonld."""
import z3
import pymantic.primitives as P
from pymantic.parsers.jsonld import PyLDLoader
from pyld import jsonld as pyld_jsonld
from pyvc import terms as T
from pyvc.terms import U, STR, Q4, NONE, mk, conj, disj, ex
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.verify import *
from . import dataset as D
from . import parsing
from .parsing import BnMap, bnOf

B = z3.BoolSort()
ftype = z3.Function("frag_type", U, STR)
fval = z3.Function("frag_value", U, STR)
fhaslang = z3.Function("frag_has_language", U, B)
flang = z3.Function("frag_language", U, STR)
fdt = z3.Function("frag_datatype", U, STR)
frag = {n: z3.Function("stmt_" + n, U, U) for n in ("subject", "predicate", "object")}
isName = z3.Function("ds_has_graph", STR, B)
inGraph = z3.Function("ds_has_statement", STR, U, B)
S = z3.StringVal


def key(E, k):
    if isinstance(k, str):
        return str(k)
    raise Unsupported("computed key of a JSON-LD statement")


class FragV(Val):
    """a subject, predicate or object of a statement as the processor gives it: a dict"""
    cls = dict

    def __init__(self, f):
        self.f = f

    def sub(self, p):
        return FragV(subst(self.f, p))

    def py_getitem(self, E, k):
        k = key(E, k)
        if k == "type":
            return sv(ftype(self.f))
        if k == "value":
            return sv(fval(self.f))
        if k == "language":
            if not E.decide(fhaslang(self.f)):
                raise PyRaise(ExcV(KeyError, (k,)))
            return sv(flang(self.f))
        if k == "datatype":
            if not E.decide(ftype(self.f) == S("literal")):
                raise PyRaise(ExcV(KeyError, (k,)))
            return sv(fdt(self.f))
        raise PyRaise(ExcV(KeyError, (k,)))

    def py_contains(self, E, k):
        k = key(E, k)
        if k in ("type", "value"):
            return True
        if k == "language":
            return fhaslang(self.f)
        if k == "datatype":
            return ftype(self.f) == S("literal")
        return False

    def pymethod(self, E, name):
        if name == "get":
            def get(E, a, kw):
                d = a[1] if len(a) > 1 else kw.get("default")
                c = self.py_contains(E, a[0])
                return self.py_getitem(E, a[0]) if (c if isinstance(c, bool) else E.decide(c)) else d
            return BuiltinV("dict.get", get)
        raise Unsupported(f"dict.{name}")


class StmtV(Val):
    cls = dict

    def __init__(self, s):
        self.s = s

    def sub(self, p):
        return StmtV(subst(self.s, p))

    def py_getitem(self, E, k):
        k = key(E, k)
        if k not in frag:
            raise PyRaise(ExcV(KeyError, (k,)))
        return FragV(frag[k](self.s))

    def py_contains(self, E, k):
        return key(E, k) in frag

    def pymethod(self, E, name):
        vals = [(n, FragV(frag[n](self.s))) for n in frag]
        if name == "values":
            return BuiltinV("values", lambda E, a, k: ListV(E, [One(v) for _, v in vals]))
        if name == "items":
            return BuiltinV("items", lambda E, a, k: ListV(E, [One(TupV(tuple, [n, v])) for n, v in vals]))
        raise Unsupported(f"dict.{name}")


class ExpandedV(Val):
    """the processor's result: a dict from graph names to lists of statements"""
    cls = dict

    def stmts(self, n):
        s = z3.FreshConst(U, "s")
        return SeqV([Seg([s], inGraph(n, s), StmtV(s))])

    def pymethod(self, E, name):
        def items(E, a, k):
            n = z3.FreshConst(STR, "n")
            return SeqV([Seg([n], isName(n), TupV(tuple, [sv(n), self.stmts(n)]))])

        def keys(E, a, k):
            n = z3.FreshConst(STR, "n")
            return SeqV([Seg([n], isName(n), sv(n))])

        def values(E, a, k):
            n = z3.FreshConst(STR, "n")
            return SeqV([Seg([n], isName(n), self.stmts(n))])
        tbl = dict(items=items, keys=keys, values=values, __iter__=keys)
        if name not in tbl:
            raise Unsupported(f"dict.{name}")
        return BuiltinV("dict." + name, tbl[name])

    def py_getitem(self, E, k):
        n = E.zstr(k)
        if not E.decide(isName(n)):
            raise PyRaise(ExcV(KeyError, (k,)))
        return self.stmts(n)

    def py_contains(self, E, k):
        return isName(E.zstr(k))


def frag_facts(E, f):
    E.assume(disj([ftype(f) == S(x) for x in ("IRI", "blank node", "literal")]))
    E.assume(z3.Implies(fhaslang(f), conj([ftype(f) == S("literal"), flang(f) != S("")])))
    E.assume(z3.Implies(ftype(f) == S("blank node"), fval(f) != S("")))  # a blank node identifier starts with _:


def expanded(E):
    """well-formedness of what the processor returns"""
    x, n, s = z3.FreshConst(U, "f"), z3.FreshConst(STR, "n"), z3.FreshConst(U, "s")
    E.assume(T.forall([x], conj([disj([ftype(x) == S(t) for t in ("IRI", "blank node", "literal")]), z3.Implies(fhaslang(x), conj([ftype(x) == S("literal"), flang(x) != S("")])),
                                z3.Implies(ftype(x) == S("blank node"), fval(x) != S(""))]), patterns=[ftype(x)]))
    E.assume(T.forall([n, s], z3.Implies(inGraph(n, s), isName(n)), patterns=[inGraph(n, s)]))
    return ExpandedV()


def term_of(k, f):
    """the RDF term a fragment stands for"""
    lit = z3.If(fhaslang(f), T.mkLit(T.ofStr(fval(f)), T.ofStr(flang(f)), NONE), T.mkLit(T.ofStr(fval(f)), NONE, T.ofStr(fdt(f))))
    return z3.If(ftype(f) == S("IRI"), T.ofStr(fval(f)), z3.If(ftype(f) == S("blank node"), bnOf(k, fval(f)), lit))


def graph_of(k, n):
    return z3.If(n == S("@default"), NONE, z3.If(z3.PrefixOf(S("_:"), n), bnOf(k, n), T.ofStr(n)))


def quad_of(k, n, s):
    return mk(Q4, *[term_of(k, frag[x](s)) for x in ("subject", "predicate", "object")], graph_of(k, n))


def wanted(E, nm, gs, old, k):
    q, n, s = E.fresh_const("q", Q4), E.fresh_const("n", STR), E.fresh_const("s", U)
    E.oblige(f"{nm}: every statement is stored as its quad", z3.Implies(inGraph(n, s), gs.q.mem(quad_of(k, n, s))))
    n2, s2 = z3.FreshConst(STR, "n"), z3.FreshConst(U, "s")
    E.oblige(f"{nm}: nothing else is stored", z3.Implies(gs.q.mem(q), disj([old(q), ex([n2, s2], conj([inGraph(n2, s2), q == quad_of(k, n2, s2)]))])))
    E.oblige(f"{nm}: previous content is kept", z3.Implies(old(q), gs.q.mem(q)))


def c_add(E, args, kw):
    """the part of Dataset.add's contract (C03) that concerns the quads"""
    self, quad = args
    self.attrs["_graphs"].q.add(E.from_term(E.term(quad, Q4), Q4))


def c_fragment(E, args, kw):
    """proved of its body below"""
    p, f = args
    bn = p.attrs["_call_state"].attrs.get("bnodes")
    if not isinstance(f, FragV) or not isinstance(bn, BnMap):
        raise Unsupported("process_triple_fragment outside a parse")
    return UV(term_of(z3.IntVal(bn.k), f.f))


def engine():
    def mkE():
        E = D.engine()()
        parsing.install(E)
        E.contracts[P.Dataset.add] = c_add
        f = getattr(PyLDLoader, "process_triple_fragment", None)
        if f is not None:
            E.contracts[f] = c_fragment
        return E
    return mkE


def to_rdf(E, jobj, options, result, calls):
    def f(E, a, k):
        got = list(a) + [k[n] for n in ("options",) if n in k]
        ok = len(got) in (1, 2) and got[0] is jobj and (got[1] if len(got) > 1 else None) is options and set(k) <= {"options"}
        E.oblige("the processor gets the document and the caller's options", z3.BoolVal(ok))
        calls.append(1)
        return result
    return f


def t_process(E):
    nm = "process_jobj"
    parsing.bn_axioms(E)
    ds, gs = D.dataset(E)
    old = D.frozen(E, gs.q)
    p = parsing.parser(E, PyLDLoader)
    st = p.attrs["_call_state"]
    st.attrs["graph"] = ds
    jobj, opts = OpaqueV("document"), OpaqueV("options")
    calls = []
    E.contracts[pyld_jsonld.to_rdf] = to_rdf(E, jobj, opts, expanded(E), calls)
    k = z3.IntVal(st.attrs["bnodes"].k)
    got = outcome(E, lambda: E.call(PyLDLoader.process_jobj, [p, jobj, opts], {}))
    E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
    E.oblige(f"{nm}: the processor is asked once", z3.BoolVal(len(calls) == 1))
    if got[0] == "ok":
        wanted(E, nm, gs, old, k)


def t_fragment(E):
    nm = "process_triple_fragment"
    E.disabled.add(PyLDLoader.process_triple_fragment)
    parsing.bn_axioms(E)
    p = parsing.parser(E, PyLDLoader)
    k = z3.IntVal(p.attrs["_call_state"].attrs["bnodes"].k)
    f = z3.Const("fragment", U)
    frag_facts(E, f)
    got = outcome(E, lambda: E.call(PyLDLoader.process_triple_fragment, [p, FragV(f)], {}))
    E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] == "ok":
        E.oblige(f"{nm}: the term the fragment stands for", E.uterm(got[1]) == term_of(k, f))
        kind = z3.If(ftype(f) == S("IRI"), 0, z3.If(ftype(f) == S("literal"), 2, 1))
        v = got[1]
        have = 0 if isinstance(v, StrV) and v.cls is P.NamedNode else 2 if isinstance(v, TupV) and v.cls is P.Literal else 1 if isinstance(v, UV) or isinstance(v, Obj) and v.cls is P.BlankNode else -1
        E.oblige(f"{nm}: the kind of node the fragment stands for", kind == have)
        if have == 2:
            d = v.items[2]
            E.oblige(f"{nm}: a literal's datatype is a named node", z3.BoolVal(d is None or isinstance(d, StrV) and d.cls is P.NamedNode))


def t_parse(given):
    def thunk(E):
        nm = "parse_json" + (" into a sink" if given else "")
        parsing.bn_axioms(E)
        made = []

        def new(E, a, k):
            if a or k:
                raise Unsupported("Dataset with arguments")
            d = D.dataset(E, "new", empty=True)
            made.append(d)
            return d[0]
        E.contracts[P.Dataset] = new
        p = parsing.parser(E, PyLDLoader, state=False)
        jobj, opts = OpaqueV("document"), OpaqueV("options")
        calls = []
        E.contracts[pyld_jsonld.to_rdf] = to_rdf(E, jobj, opts, expanded(E), calls)
        n0 = BnMap.n
        if given:
            ds, gs = D.dataset(E)
            old = D.frozen(E, gs.q)
            got = outcome(E, lambda: E.call(PyLDLoader.parse_json, [p, jobj], {"sink": ds, "options": opts}))
        else:
            got = outcome(E, lambda: E.call(PyLDLoader.parse_json, [p, jobj], {"options": opts}))
            if len(made) != 1:
                E.oblige(f"{nm}: one new dataset", FALSE)
                return
            ds, gs = made[0]
            old = lambda q: FALSE
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        E.oblige(f"{nm}: the processor is asked once", z3.BoolVal(len(calls) == 1))
        E.oblige(f"{nm}: blank nodes of this parse only", z3.BoolVal(BnMap.n == n0 + 1))
        if got[0] == "ok":
            E.oblige(f"{nm}: returns the sink", z3.BoolVal(got[1] is ds))
            wanted(E, nm, gs, old, z3.IntVal(BnMap.n))
    return thunk


def tasks():
    L = PyLDLoader
    return [Task("PyLDLoader.process_triple_fragment", t_fragment, ["PyLDLoader.process_triple_fragment"]),
            Task("PyLDLoader.process_jobj", t_process, ["PyLDLoader.process_jobj", "PyLDLoader.make_quad", "PyLDLoader.process_triple_fragment"]),
            Task("PyLDLoader.parse_json (new dataset)", t_parse(False), ["PyLDLoader.parse_json", "PyLDLoader._make_graph", "BaseParser._prepare_parse", "BaseParser._cleanup_parse"]),
            Task("PyLDLoader.parse_json (given sink)", t_parse(True), ["PyLDLoader.parse_json", "BaseParser._prepare_parse", "BaseParser._cleanup_parse"])]

"""C19: Triple / Quad / Literal construct exactly their components."""
import datetime
import itertools
import z3
import pymantic.primitives as P
import pymantic.util as UT
from pyvc import terms as T
from pyvc.core import Engine
from pyvc.terms import U, T3, Q4, NONE, mk, conj, disj
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.verify import *

XSD = "http://www.w3.org/2001/XMLSchema#"
FIELDS = {P.Triple: ("subject", "predicate", "object"), P.Quad: ("subject", "predicate", "object", "graph"),
          P.Literal: ("value", "language", "datatype")}


def engine():
    def mkE():
        return Engine()
    return mkE


def sym(names):
    return [UV(z3.Const("c_" + n, U)) for n in names]


def is_value(E, name, got, cls, want):
    """got is a cls with exactly the components want, also through its named fields"""
    ok = isinstance(got, TupV) and got.cls is cls and len(got.items) == len(want)
    E.oblige(f"{name}: builds a {cls.__name__} of {len(want)} components", z3.BoolVal(bool(ok)))
    if not ok:
        return
    for i, (f, w) in enumerate(zip(FIELDS[cls], want)):
        same_value(E, f"{name}: component {i}", got.items[i], w)
        r = outcome(E, lambda: E.getattr_(got, f))
        E.oblige(f"{name}: field {f} is readable", z3.BoolVal(r[0] == "ok"))
        if r[0] == "ok":
            same_value(E, f"{name}: field {f}", r[1], w)


def raises(E, name, got, cls):
    E.oblige(f"{name}: raises {getattr(cls, '__name__', cls)}", z3.BoolVal(got[0] == "raise" and issubclass(got[1].cls, cls)))


def new_task(cls):
    def thunk(E):
        fs = FIELDS[cls]
        cs = sym(fs)
        if cls is P.Literal:
            E.assume(disj([T.isStr(cs[0].e), T.isNN(cs[0].e)]))
        got = outcome(E, lambda: E.call(cls, list(cs), {}))
        E.oblige(f"{cls.__name__}(): does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            is_value(E, f"{cls.__name__}()", got[1], cls, cs)
        # keyword construction
        got = outcome(E, lambda: E.call(cls, [], dict(zip(fs, cs))))
        E.oblige(f"{cls.__name__}(keywords): does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            is_value(E, f"{cls.__name__}(keywords)", got[1], cls, cs)
    return Task(f"{cls.__name__}.__new__", thunk, [f"{cls.__name__}.__new__"])


def make_task(cls, n):
    def thunk(E):
        cs = sym([f"i{k}" for k in range(n)])
        for kind in ("tuple", "list", "iterator"):
            arg = TupV(tuple, cs) if kind == "tuple" else ListV(E, [One(c) for c in cs])
            if kind == "iterator":
                arg = SeqV([One(c) for c in cs])
            got = outcome(E, lambda: E.call(E.getattr_(cls, "_make"), [arg], {}))
            nm = f"{cls.__name__}._make({kind} of {n})"
            if n == len(FIELDS[cls]):
                E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
                if got[0] == "ok":
                    is_value(E, nm, got[1], cls, cs)
            else:
                raises(E, nm, got, TypeError)
    return Task(f"{cls.__name__}._make[{n}]", thunk, [f"{cls.__name__}._make"])


def make_long_task(cls):
    """a sequence of any other length is refused"""
    def thunk(E):
        n = z3.Const("n", z3.IntSort())
        E.assume(n >= 0)
        E.assume(n != len(FIELDS[cls]))
        el = z3.Function("elem", z3.IntSort(), U)
        seq = idx_seq(n, lambda i: UV(el(i)))
        got = outcome(E, lambda: E.call(E.getattr_(cls, "_make"), [seq], {}))
        raises(E, f"{cls.__name__}._make(any wrong length)", got, TypeError)
    return Task(f"{cls.__name__}._make[any length]", thunk, [f"{cls.__name__}._make"])


def replace_task(cls):
    fs = FIELDS[cls]

    def thunk(E):
        # every subset of fields, with and without an unknown field name
        for k in range(len(fs) + 1):
            for sub in itertools.combinations(fs, k):
                old = sym(["old_" + f for f in fs])
                new = dict(zip(sub, sym(["new_" + f for f in sub])))
                v = TupV(cls, old)
                for extra in ((), ("no_such_field",)):
                    kw = dict(new)
                    for x in extra:
                        kw[x] = UV(z3.Const("c_extra", U))
                    got = outcome(E, lambda: E.call(E.getattr_(v, "_replace"), [], dict(kw)))
                    nm = f"{cls.__name__}._replace({', '.join(kw)})"
                    if extra:
                        raises(E, nm, got, (ValueError, TypeError))
                    else:
                        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
                        if got[0] == "ok":
                            is_value(E, nm, got[1], cls, [new.get(f, o) for f, o in zip(fs, old)])
    return Task(f"{cls.__name__}._replace", thunk, [f"{cls.__name__}._replace", f"{cls.__name__}._make"])


def asdict_task(cls):
    fs = FIELDS[cls]

    def thunk(E):
        cs = sym(fs)
        got = outcome(E, lambda: E.call(E.getattr_(TupV(cls, cs), "_asdict"), [], {}))
        ok = got[0] == "ok" and isinstance(got[1], DictV) and list(got[1].d) == list(fs)
        E.oblige(f"{cls.__name__}._asdict: maps the field names in order", z3.BoolVal(bool(ok)))
        if ok:
            for f, c in zip(fs, cs):
                same_value(E, f"{cls.__name__}._asdict: {f}", got[1].d[f], c)
        r = outcome(E, lambda: E.call(E.getattr_(TupV(cls, cs), "__getnewargs__"), [], {}))
        E.oblige(f"{cls.__name__}.__getnewargs__: does not raise", z3.BoolVal(r[0] == "ok"))
        if r[0] == "ok":
            ok = isinstance(r[1], TupV) and len(r[1].items) == len(cs)
            E.oblige(f"{cls.__name__}.__getnewargs__: all components", z3.BoolVal(bool(ok)))
            if ok:
                for a, b in zip(r[1].items, cs):
                    same_value(E, f"{cls.__name__}.__getnewargs__: component", a, b)
        # immutability: no attribute of the class can be assigned on an instance
        inst = tuple.__new__(cls, range(len(fs)))
        frozen = True
        for f in fs + ("anything",):
            try:
                setattr(inst, f, 1)
                frozen = False
            except AttributeError:
                pass
        E.oblige(f"{cls.__name__}: instances have no assignable attribute", z3.BoolVal(frozen and not hasattr(inst, "__dict__")))
    return Task(f"{cls.__name__}._asdict", thunk, [f"{cls.__name__}._asdict", f"{cls.__name__}.__getnewargs__"])


def convert_task():
    def thunk(E):
        q = sym(FIELDS[P.Quad])
        got = outcome(E, lambda: E.call(P.q_as_t, [TupV(P.Quad, q)], {}))
        E.oblige("q_as_t: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            is_value(E, "q_as_t", got[1], P.Triple, q[:3])
        g = UV(z3.Const("c_name", U))
        got = outcome(E, lambda: E.call(P.t_as_q, [g, TupV(P.Triple, q[:3])], {}))
        E.oblige("t_as_q: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            is_value(E, "t_as_q", got[1], P.Quad, q[:3] + [g])
    return Task("q_as_t, t_as_q", thunk, ["q_as_t", "t_as_q"])


def int_task():
    def thunk(E):
        n = z3.Const("n", z3.IntSort())
        for how in ("plain", "datatype"):
            d = UV(z3.Const("c_dt", U))
            E.assume(d.e != NONE)
            args = [IntV(n)] if how == "plain" else [IntV(n), None, d]
            got = outcome(E, lambda: E.call(P.Literal, args, {}))
            E.oblige(f"Literal(int, {how}): does not raise", z3.BoolVal(got[0] == "ok"))
            if got[0] == "ok":
                want_dt = P.NamedNode(XSD + "integer") if how == "plain" else d
                v = got[1].items[0]
                E.oblige(f"Literal(int, {how}): the value is a string", z3.BoolVal(isinstance(v, (str, StrV))))
                dec = z3.If(n >= 0, z3.IntToStr(n), z3.Concat(z3.StringVal("-"), z3.IntToStr(-n)))
                E.oblige(f"Literal(int, {how}): decimal lexical form", E.zstr(v) == dec)
                is_value(E, f"Literal(int, {how})", got[1], P.Literal, [v, None, want_dt])
    return Task("Literal.__new__(int)", thunk, ["Literal.__new__", "Literal.types"])


def datetime_task():
    def thunk(E):
        iso = sv(z3.Const("iso", T.STR))
        dtv = OpaqueV("moment", cls=datetime.datetime, methods={"isoformat": lambda E, a, k: iso if not a and not k else _no()})
        for how in ("plain", "datatype"):
            d = UV(z3.Const("c_dt", U))
            E.assume(d.e != NONE)
            args = [dtv] if how == "plain" else [dtv, None, d]
            got = outcome(E, lambda: E.call(P.Literal, args, {}))
            E.oblige(f"Literal(datetime, {how}): does not raise", z3.BoolVal(got[0] == "ok"))
            if got[0] == "ok":
                want_dt = P.NamedNode(XSD + "dateTime") if how == "plain" else d
                is_value(E, f"Literal(datetime, {how})", got[1], P.Literal, [iso, None, want_dt])
    return Task("Literal.__new__(datetime)", thunk, ["Literal.__new__", "Literal.types"])


def _no():
    raise Unsupported("isoformat with arguments")


def lang_task():
    def thunk(E):
        v = UV(z3.Const("c_v", U))
        E.assume(T.isStr(v.e))
        for fn, lang in ((UT.en, "en"), (UT.de, "de")):
            got = outcome(E, lambda: E.call(fn, [v], {}))
            E.oblige(f"{fn.__name__}: does not raise", z3.BoolVal(got[0] == "ok"))
            if got[0] == "ok":
                is_value(E, fn.__name__, got[1], P.Literal, [v, lang, None])
        lg, d = sym(["lang", "dtt"])
        got = outcome(E, lambda: E.call(P.Literal, [v], {"language": lg}))
        E.oblige("Literal(value, language=): does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            is_value(E, "Literal(value, language=)", got[1], P.Literal, [v, lg, None])
        got = outcome(E, lambda: E.call(P.Literal, [v], {"datatype": d}))
        E.oblige("Literal(value, datatype=): does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            is_value(E, "Literal(value, datatype=)", got[1], P.Literal, [v, None, d])
        got = outcome(E, lambda: E.call(P.Literal, [v], {}))
        E.oblige("Literal(value): does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            is_value(E, "Literal(value)", got[1], P.Literal, [v, None, None])
    return Task("en, de, Literal(value)", thunk, ["en", "de", "Literal.__new__"])


def env_task():
    """the factory methods of RDFEnvironment pass their arguments on in order"""
    def thunk(E):
        e = OpaqueV("env")
        R = P.RDFEnvironment
        cs = sym(["a", "b", "c", "d"])
        E.assume(T.isStr(cs[0].e))
        for nm, cls, n in (("createTriple", P.Triple, 3), ("createQuad", P.Quad, 4), ("createLiteral", P.Literal, 3)):
            got = outcome(E, lambda: E.call(R.__dict__[nm], [e] + cs[:n], {}))
            E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
            if got[0] == "ok":
                is_value(E, nm, got[1], cls, cs[:n])
    return Task("RDFEnvironment factories", thunk, ["RDFEnvironment.createTriple", "RDFEnvironment.createQuad", "RDFEnvironment.createLiteral"])


def tasks():
    out = [convert_task(), int_task(), datetime_task(), lang_task(), env_task()]
    for cls in (P.Triple, P.Quad, P.Literal):
        out += [new_task(cls), replace_task(cls), asdict_task(cls), make_long_task(cls)]
        out += [make_task(cls, n) for n in range(0, 7)]
    return out

"""Models (assumed contracts) of python builtins and container methods."""
import ast
import itertools
import builtins
import collections
import operator
import re
import types
import urllib.parse

import z3
from . import terms as T
from .terms import U, T3, Q4, P2, STR, INT, BOOL, NONE, conj, disj, ex, subst
from .values import *
from .values import TRUE, FALSE
from .core import SliceV, SuperV, Engine

MODELS = {}


def model(*objs):
    def deco(f):
        for o in objs:
            MODELS[id(o)] = (o, f)
        return f
    return deco


def lookup(f):
    if isinstance(f, types.BuiltinMethodType) and f.__self__ is bytes and f.__name__ == "fromhex":
        return fromhex
    r = MODELS.get(id(f))
    if r and r[0] is f:
        return r[1]
    return None


PURE_MODULES = {"builtins", "re", "math", "operator", "urllib.parse", "string", "datetime"}
IMPURE = {"open", "input", "exec", "eval", "print", "id", "iter", "next", "setattr", "delattr", "globals", "locals",
          "vars", "__import__", "super", "sorted", "map", "filter", "zip", "enumerate", "hasattr", "getattr"}


def is_concrete(v):
    if isinstance(v, TupV):
        return all(is_concrete(i) for i in v.items)
    if isinstance(v, ListV):
        return v.concrete() and all(is_concrete(o.elem) for o in v.items)
    if isinstance(v, StrV):
        return all(isinstance(p, str) for p in v.pieces)
    if isinstance(v, SeqV):
        return all(isinstance(o, One) and is_concrete(o.elem) for o in v.segs)
    return not isinstance(v, Val)


def pure_concrete(f, args, kwargs):
    if not all(is_concrete(a) for a in list(args) + list(kwargs.values())):
        return False
    mod = getattr(f, "__module__", None)
    slf = getattr(f, "__self__", None)
    if isinstance(slf, (str, int, bytes, tuple, frozenset)) or type(slf).__module__ == "re":
        return True
    if isinstance(slf, type) and slf in (str, int, bytes, dict):
        return True
    if mod in PURE_MODULES:
        return getattr(f, "__name__", "") not in IMPURE
    return False


# ---- construction -----------------------------------------------------------------------

def make_set(E, segs, cls=set):
    s = SetV(E, cls=cls, card=z3.IntVal(0))
    for g in segs:
        add_seg(E, s, g)
    return s


def add_seg(E, s, g):
    if isinstance(g, One):
        if isinstance(g.elem, SetV):
            raise Unsupported("set of sets")
        s.add(g.elem)
        return
    if s.sort is None:
        s.sort = E.sort_of(g.elem)
    t = E.term(g.elem, s.sort)

    def A(x, g=g, t=t):
        new = [z3.FreshConst(b.sort(), "b") for b in g.bs]
        p = list(zip(g.bs, new))
        return ex(new, conj([subst(g.guard, p), x == subst(t, p)]))
    s.apply(Aff(lambda x: TRUE, A, "addseg"))


def copy_set(E, s, cls=set):
    n = SetV(E, s.sort, s.base, cls=cls, card=s.card)
    n.ops = s.ops
    return n


def dict_from_pairs(E, segs):
    if all(isinstance(s, One) for s in segs):
        d = DictV(E)
        for s in segs:
            k, v = s.elem.items
            setitem(E, d, k, v)
        return d
    if len(segs) == 1:
        s = segs[0]
        k, v = s.elem.items
        ks, vs = E.sort_of(k), E.sort_of(v)
        if isinstance(k, (StrV,)):
            ks = STR
        if isinstance(v, (StrV,)):
            vs = STR
        kt, vt = E.term(k, ks), E.term(v, vs)
        m = MapV(E, ks, vs)

        def A(x):
            new = [z3.FreshConst(b.sort(), "b") for b in s.bs]
            p = list(zip(s.bs, new))
            return ex(new, conj([subst(s.guard, p), x == subst(kt, p)]))

        def val(x):
            from .loops import solve_for
            sol = solve_for(x == kt, s.bs)
            if sol is None:
                raise Unsupported("dict comprehension key does not determine the element")
            return subst(vt, sol)
        m.ops = (DOp(lambda x: TRUE, A, val),)
        return m
    raise Unsupported("dict of several symbolic groups")


def make_dict(E, cls, args, kwargs):
    if not args:
        d = DictV(E, cls=cls)
    else:
        a = args[0]
        if isinstance(a, MapV):
            d = MapV(E, a.ksort, a.vsort, a.has0, a.get0, cls=cls, vwrap=a.vwrap, kwrap=a.kwrap)
            d.ops = a.ops
        elif isinstance(a, DictV):
            d = DictV(E, a.d, cls=cls)
        elif isinstance(a, dict):
            d = DictV(E, a, cls=cls)
        else:
            d = dict_from_pairs(E, E.segments(a))
            d.cls = cls
    for k, v in kwargs.items():
        setitem(E, d, k, v)
    init = E.class_lookup(cls, "__init__")
    if isinstance(init, types.FunctionType):
        raise Unsupported("dict subclass with __init__")
    return d


def make_str(E, cls, args):
    from . import strings
    if not args:
        return "" if cls is str else StrV([""], cls)
    v = args[0]
    if len(args) > 1:
        raise Unsupported("str() with encoding")
    s = strings.str_(E, v)
    if isinstance(s, str):
        if cls is str:
            return str.__str__(s)
        return cls(s)
    if isinstance(s, StrV):
        return StrV(s.pieces, cls)
    if isinstance(s, UV):
        return StrV([Zs(T.strOf(s.e))], cls)
    raise Unsupported(f"str of {v!r}")


# ---- items --------------------------------------------------------------------------------

def conc_key(E, d, k):
    """resolve a possibly symbolic key against the concrete keys of d; returns key or None"""
    if isinstance(k, TupV):
        try:
            k = E.lower(k)
        except Unsupported:
            pass
    if isinstance(k, StrV) and all(isinstance(p, str) for p in k.pieces):
        k = E.lower(k)
    if not isinstance(k, Val):
        # symbolic keys stored in d?
        for kk in d:
            if isinstance(kk, SymKey):
                if E.decide(E.equal(kk.v, k)):
                    return kk
        return k if k in d else None
    for kk in list(d):
        kv = kk.v if isinstance(kk, SymKey) else kk
        if E.decide(E.equal(k, kv)):
            return kk
    return None


class SymKey:
    """a symbolic key inside a DictV (distinct from the other keys by path condition)"""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"SymKey({self.v!r})"


def seq_index(E, items, i):
    n = len(items)
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int):
        if -n <= i < n:
            return items[i]
        raise PyRaise(ExcV(IndexError))
    raise Unsupported("symbolic index")


def getitem(E, o, k):
    from . import strings
    if isinstance(o, Poison):
        raise Unsupported("loop-carried value: " + o.why)
    if isinstance(o, TupV):
        if isinstance(k, SliceV):
            return TupV(tuple, o.items[_slice(k)])
        return seq_index(E, o.items, k)
    if isinstance(o, (ListV, SeqV)):
        items = E.segments(o)
        if all(isinstance(i, One) for i in items):
            if isinstance(k, SliceV):
                return ListV(E, items[_slice(k)])
            return seq_index(E, items, k).elem
        if isinstance(k, int) and k in (0, -1) and idx_range(items) is None:
            return pick(E, items, IndexError)
        if isinstance(k, int) and k > 0 and all(isinstance(i, One) for i in items[:k + 1]):
            return items[k].elem
        r = idx_range(items)
        if r is not None and isinstance(k, (int, IntV)) and not isinstance(k, bool):
            i, n = E.zint(k), r[2] - r[1]
            if E.decide(z3.And(i >= 0, i < n)):
                return idx_at(E, r, i)
            if E.decide(z3.And(i < 0, i >= -n)):
                return idx_at(E, r, n + i)
            raise PyRaise(ExcV(IndexError))
        if r is not None and isinstance(k, SliceV) and all(x is None or isinstance(x, int) and x >= 0 for x in (k.lo, k.hi, k.step)) and (k.step is None or k.step > 0):
            n, lo, st = r[2] - r[1], k.lo or 0, k.step or 1
            if k.hi is not None:
                n = z3.If(n < k.hi, n, z3.IntVal(k.hi))
            m = z3.simplify(z3.If(n > lo, (n - lo + (st - 1)) / st, z3.IntVal(0)))
            return idx_seq(m, lambda q: idx_at(E, r, lo + st * q))
        if isinstance(k, SliceV) and k.lo is None and k.hi is None and k.step == -1 and len(items) == 1 and isinstance(items[0].ordered, IdxOrd):
            return reversed_(E, [SeqV(items)], {})
        if isinstance(k, SliceV) and k.hi is None and k.step in (None, 1) and isinstance(k.lo, int) and k.lo >= 0 and \
                all(isinstance(i, One) for i in items[:k.lo]) and len(items) >= k.lo:
            return ListV(E, list(items[k.lo:]))
        raise Unsupported("indexing a sequence of unknown length")
    if isinstance(o, (StrV, str)):
        return strings.getitem(E, o, k)
    if isinstance(o, DictV):
        kk = conc_key(E, o.d, k)
        if kk is None:
            if o.factory is not None:
                v = E.call(o.factory, [], {})
                setitem(E, o, k, v)
                return v
            raise PyRaise(ExcV(KeyError, (k,)))
        return o.d[kk]
    if isinstance(o, MapV):
        t = E.term(k, o.ksort)
        if not E.decide(o.has(t)):
            if o.factory is None:
                raise PyRaise(ExcV(KeyError, (k,)))
            v = o.factory(E, t)
            o.set(t, v)
            return o.vwrap(v)
        return o.vwrap(o.get(t))
    if isinstance(o, IndexRef):
        return E.idx_get(o, E.uterm(k))
    if isinstance(o, OpaqueV) and "__getitem__" in o.methods:
        return o.methods["__getitem__"](E, [k], {})
    if isinstance(o, (Obj, RecV)):
        m = E.class_lookup(o.cls, "__getitem__")
        if m is None:
            raise PyRaise(ExcV(TypeError))
        return E.call(E.bind(m, o, o.cls), [k], {})
    if isinstance(o, UV):
        if isinstance(k, int):
            h = getattr(E, "u_getitem_hook", None)
            if h:
                r = h(E, o, k)
                if r is not None:
                    return r
            return strings.getitem(E, sv(T.strOf(o.e)), k)
        if isinstance(k, SliceV):
            return strings.getitem(E, sv(T.strOf(o.e)), k)
        raise Unsupported("index of an unknown value")
    if isinstance(o, dict):
        if hasattr(o, "default_factory") and o.default_factory is not None:
            raise Unsupported("concrete defaultdict")
        kk = conc_key(E, o, k)
        if kk is None:
            raise PyRaise(ExcV(KeyError, (k,)))
        return o[kk]
    if isinstance(o, (list, tuple)):
        if isinstance(k, SliceV):
            return o[_slice(k)]
        return seq_index(E, o, k)
    if isinstance(o, type) or not isinstance(o, Val):
        try:
            return o[E.lower(k)]
        except (KeyError, IndexError, TypeError) as e:
            raise PyRaise(ExcV(type(e)))
    if hasattr(o, "py_getitem"):
        return o.py_getitem(E, k)
    raise Unsupported(f"subscript of {o!r}")


def _slice(k):
    for x in (k.lo, k.hi, k.step):
        if isinstance(x, Val):
            raise Unsupported("symbolic slice")
    return slice(k.lo, k.hi, k.step)


def pick(E, items, exc):
    """an arbitrary element (the first one in an unknown order)"""
    rest = []
    for it in items:
        if isinstance(it, One):
            return it.elem
        if E.decide(ex(it.bs, it.guard)):
            w = [E.fresh("w", b.sort()) for b in it.bs]
            g, e = it.inst(w)
            E.assume(g)
            return e
    raise PyRaise(ExcV(exc))


def setitem(E, o, k, v):
    if hasattr(o, "py_setitem"):
        o.py_setitem(E, k, v)
        return
    if isinstance(o, DictV):
        kk = conc_key(E, o.d, k)
        d = dict(o.d)
        if kk is None:
            if isinstance(k, TupV):
                try:
                    k = E.lower(k)
                except Unsupported:
                    pass
            if isinstance(k, StrV) and all(isinstance(p, str) for p in k.pieces):
                k = E.lower(k)
            kk = SymKey(k) if isinstance(k, Val) else k
        d[kk] = v
        o.d = d
        return
    if isinstance(o, MapV):
        t = E.term(k, o.ksort)
        o.set(t, E.term(v, o.vsort))
        return
    if isinstance(o, IndexRef):
        E.idx_set(o, E.uterm(k), v)
        return
    if isinstance(o, ListV):
        if o.concrete() and isinstance(k, int):
            l = list(o.items)
            if not -len(l) <= k < len(l):
                raise PyRaise(ExcV(IndexError))
            l[k] = One(v)
            o.items = tuple(l)
            return
        raise Unsupported("list item assignment")
    if isinstance(o, OpaqueV) and "__setitem__" in o.methods:
        o.methods["__setitem__"](E, [k, v], {})
        return
    if isinstance(o, (Obj, RecV)):
        m = E.class_lookup(o.cls, "__setitem__")
        if m is None:
            raise PyRaise(ExcV(TypeError))
        E.call(E.bind(m, o, o.cls), [k, v], {})
        return
    raise Unsupported(f"item assignment on {o!r}")


def delitem(E, o, k, missing=KeyError):
    if isinstance(o, DictV):
        kk = conc_key(E, o.d, k)
        if kk is None:
            raise PyRaise(ExcV(KeyError, (k,)))
        d = dict(o.d)
        del d[kk]
        o.d = d
        return
    if isinstance(o, MapV):
        t = E.term(k, o.ksort)
        if not E.decide(o.has(t)):
            raise PyRaise(ExcV(KeyError, (k,)))
        o.delete(t)
        return
    if isinstance(o, IndexRef):
        E.idx_del(o, E.uterm(k))
        return
    if isinstance(o, OpaqueV) and "__delitem__" in o.methods:
        o.methods["__delitem__"](E, [k], {})
        return
    if isinstance(o, (Obj, RecV)):
        m = E.class_lookup(o.cls, "__delitem__")
        if m is None:
            raise PyRaise(ExcV(TypeError))
        E.call(E.bind(m, o, o.cls), [k], {})
        return
    raise Unsupported(f"item deletion on {o!r}")


def contains(E, o, v):
    from . import strings
    if isinstance(o, Poison) or isinstance(v, Poison):
        raise Unsupported("loop-carried value")
    if isinstance(o, SetV):
        if o.sort is None:
            return False
        if o.sort.name() in T.CTOR and not isinstance(v, (TupV, tuple)):
            if isinstance(v, UV):
                return False
        return o.mem(E.term(v, o.sort))
    if isinstance(o, DictV):
        return conc_key(E, o.d, v) is not None
    if isinstance(o, MapV):
        return o.has(E.term(v, o.ksort))
    if isinstance(o, IndexRef):
        return E.idx_has(o, E.uterm(v))
    if isinstance(o, (ListV, SeqV, TupV, LazyV)):
        out = []
        for s in E.segments(o):
            if isinstance(s, One):
                r = E.equal(s.elem, v)
                if r is True:
                    return True
                if r is not False:
                    out.append(r)
            else:
                r = E.equal(s.elem, v)
                r = z3.BoolVal(r) if isinstance(r, bool) else r
                out.append(ex(s.bs, conj([s.guard, r])))
        return disj(out) if out else False
    if isinstance(o, (StrV, str)):
        return strings.contains(E, o, v)
    if isinstance(o, OpaqueV) and "__contains__" in o.methods:
        return E.truth(o.methods["__contains__"](E, [v], {}))
    if isinstance(o, (Obj, RecV)):
        m = E.class_lookup(o.cls, "__contains__")
        if m is not None:
            r = E.call(E.bind(m, o, o.cls), [v], {})
            return E.truth(r)
        return contains(E, SeqV(E.segments(o)), v)
    if isinstance(o, UV):
        if isinstance(v, (str, StrV)):
            return strings.contains(E, sv(T.strOf(o.e)), v)
        raise Unsupported("membership in an unknown value")
    if isinstance(o, (dict, set, frozenset, list, tuple)) or type(o).__name__ in ("dict_keys", "dict_values"):
        if isinstance(v, Val) and not is_concrete(v):
            named = getattr(E, "named_sets", {}).get(id(o))
            if named is not None:
                return named(E, v)
            rs = [E.equal(x, v) for x in o]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return disj(rs) if rs else False
        return E.lower(v) in o
    if hasattr(o, "py_contains"):
        return o.py_contains(E, v)
    if isinstance(o, Val):
        raise Unsupported(f"membership in {o!r}")
    if is_concrete(v):
        return E.lower(v) in o
    raise Unsupported(f"membership in {o!r}")


def order(E, op, a, b):
    from . import strings
    nm = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
    if is_concrete(a) and is_concrete(b):
        try:
            return nm(E.lower(a), E.lower(b))
        except TypeError:
            raise PyRaise(ExcV(TypeError))
    if isinstance(a, (IntV, int, BoolV)) and isinstance(b, (IntV, int, BoolV)):
        return nm(E.zint(a), E.zint(b))
    if isinstance(a, (StrV, str)) and isinstance(b, (StrV, str)):
        return strings.order(E, nm, a, b)
    if isinstance(a, SetV) and isinstance(b, SetV):
        srt = a.sort if a.sort is not None else b.sort
        x = z3.FreshConst(srt, "x")
        if isinstance(op, ast.LtE):
            return T.forall([x], z3.Implies(a.mem(x), b.mem(x)))
        if isinstance(op, ast.GtE):
            return T.forall([x], z3.Implies(b.mem(x), a.mem(x)))
    raise Unsupported(f"ordering of {a!r} and {b!r}")


def binop(E, op, a, b):
    from . import strings
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("loop-carried value")
    if is_concrete(a) and is_concrete(b) and not isinstance(a, (ListV, TupV, SeqV)) and not isinstance(b, (ListV, SeqV)):
        x, y = E.lower(a), E.lower(b)
        f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod,
             ast.FloorDiv: operator.floordiv, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
             ast.BitXor: operator.xor, ast.Div: operator.truediv, ast.LShift: operator.lshift,
             ast.RShift: operator.rshift, ast.Pow: operator.pow}.get(type(op))
        if f is None:
            raise Unsupported("operator")
        try:
            return f(x, y)
        except Exception as e:
            raise PyRaise(ExcV(type(e), tuple(e.args)))
    strish = (str, StrV)
    if isinstance(op, ast.Add):
        if isinstance(a, bytes) and isinstance(b, StrV) or isinstance(b, bytes) and isinstance(a, StrV):
            a, b = strings.as_bytes(a), strings.as_bytes(b)
        if isinstance(a, strish) and isinstance(b, strish) and (getattr(a, "cls", str) is bytes) != (getattr(b, "cls", str) is bytes):
            raise PyRaise(ExcV(TypeError))
        if isinstance(a, strish) and isinstance(b, strish):
            return strings.concat(E, [a, b])
        if isinstance(a, UV) and isinstance(b, strish) or isinstance(b, UV) and isinstance(a, strish):
            u = a if isinstance(a, UV) else b
            if not E.decide(disj([T.isStr(u.e), T.isNN(u.e)])):
                raise PyRaise(ExcV(TypeError))
            return strings.concat(E, [strings.as_str(E, a), strings.as_str(E, b)])
        if isinstance(a, (IntV, int, BoolV)) and isinstance(b, (IntV, int, BoolV)):
            return IntV(E.zint(a) + E.zint(b))
        if isinstance(a, (ListV, list, SeqV)) and isinstance(b, (ListV, list, SeqV)):
            return ListV(E, E.segments(a) + E.segments(b))
        if isinstance(a, (TupV, tuple)) and isinstance(b, (TupV, tuple)):
            return TupV(tuple, [o.elem for o in E.segments(a)] + [o.elem for o in E.segments(b)])
        if isinstance(a, OpaqueV) and "__add__" in a.methods:
            return a.methods["__add__"](E, [b], {})
    if isinstance(op, (ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)) and isinstance(a, (IntV, int)) and isinstance(b, (IntV, int)):
        x, y = E.zint(a), E.zint(b)
        if isinstance(op, ast.Sub):
            return IntV(x - y)
        if isinstance(op, ast.Mult):
            return IntV(x * y)
        if isinstance(b, int) and b > 0:
            return IntV(x / y) if isinstance(op, ast.FloorDiv) else IntV(x % y)
    if isinstance(op, ast.Mod) and isinstance(a, strish):
        return strings.percent(E, a, b)
    if isinstance(op, ast.Mult) and isinstance(a, (str, StrV)) and isinstance(b, (IntV, int)):
        return strings.repeat(E, a, b)
    if isinstance(op, ast.Mult) and isinstance(a, ListV) and isinstance(b, int) and a.concrete():
        return ListV(E, list(a.items) * b)
    if isinstance(a, SetV) and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
        n = {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference"}[type(op)]
        return E.call(method(E, a, n), [b], {})
    if isinstance(op, ast.BitOr) and isinstance(a, (DictV, MapV)):
        n = make_dict(E, a.cls, [a], {})
        dict_update(E, n, b)
        return n
    if isinstance(a, (Obj, RecV)):
        n = {ast.Add: "__add__", ast.Sub: "__sub__"}.get(type(op))
        m = n and E.class_lookup(a.cls, n)
        if m is not None:
            return E.call(E.bind(m, a, a.cls), [b], {})
    raise Unsupported(f"{type(op).__name__} of {a!r} and {b!r}")


# ---- sets, lists, dicts: methods --------------------------------------------------------------

def as_mem(E, v, sort):
    """membership predicate of any iterable"""
    if isinstance(v, SetV):
        if v.sort is None:
            return lambda x: FALSE
        sn = copy_set(E, v)
        return sn.mem
    tmp = make_set(E, E.segments(v))
    if tmp.sort is None:
        return lambda x: FALSE
    return tmp.mem


def set_method(E, s, name):
    def add(E, a, k):
        s.add(a[0])

    def remove(E, a, k):
        if s.sort is None:
            raise PyRaise(ExcV(KeyError, (a[0],)))
        t = s.coerce(a[0])
        if not E.decide(s.mem(t)):
            raise PyRaise(ExcV(KeyError, (a[0],)))
        s.remove_term(t)

    def discard(E, a, k):
        if s.sort is None:
            return
        s.remove_term(s.coerce(a[0]))

    def update(E, a, k):
        for v in a:
            for g in E.segments(v):
                add_seg(E, s, g)

    def inter_up(E, a, k):
        for v in a:
            m = as_mem(E, v, s.sort)
            s.apply(Aff(m, lambda x: FALSE, "filter"))

    def diff_up(E, a, k):
        for v in a:
            m = as_mem(E, v, s.sort)
            s.apply(Aff(lambda x, m=m: z3.Not(m(x)), lambda x: FALSE, "filter"))

    def clear(E, a, k):
        s.apply(Aff(lambda x: FALSE, lambda x: FALSE, "clear"), z3.IntVal(0))

    def fresh_copy(f):
        def g(E, a, k):
            n = copy_set(E, s, s.cls)
            if n.sort is None:
                for v in a:
                    if isinstance(v, SetV):
                        n.sort = v.sort
            f2 = set_method(E, n, f)
            f2.fn(E, a, k)
            return n
        return g

    def pop(E, a, k):
        it = pick(E, s.segs(), KeyError)
        s.remove_term(s.coerce(it))
        return it

    def issub(E, a, k):
        m = as_mem(E, a[0], s.sort)
        if s.sort is None:
            return True
        x = z3.FreshConst(s.sort, "x")
        return BoolV(T.forall([x], z3.Implies(s.mem(x), m(x))))

    def issup(E, a, k):
        segs = E.segments(a[0])
        tmp = make_set(E, segs)
        if tmp.sort is None:
            return True
        x = z3.FreshConst(tmp.sort, "x")
        return BoolV(T.forall([x], z3.Implies(tmp.mem(x), s.mem(x))))
    tbl = {"add": add, "remove": remove, "discard": discard, "update": update, "intersection_update": inter_up,
           "difference_update": diff_up, "clear": clear, "pop": pop, "issubset": issub, "issuperset": issup,
           "copy": lambda E, a, k: copy_set(E, s, s.cls),
           "union": fresh_copy("update"), "intersection": fresh_copy("intersection_update"),
           "difference": fresh_copy("difference_update"),
           "__contains__": lambda E, a, k: wrap_bool(contains(E, s, a[0])),
           "__iter__": lambda E, a, k: s, "__len__": lambda E, a, k: len_(E, [s], {})}
    if s.cls is frozenset and name in ("add", "remove", "discard", "update", "intersection_update",
                                       "difference_update", "clear", "pop"):
        raise PyRaise(ExcV(AttributeError, (name,)))
    if name not in tbl:
        raise Unsupported(f"set.{name}")
    return BuiltinV("set." + name, tbl[name])


def wrap_bool(b):
    return b if isinstance(b, (bool, BoolV)) else BoolV(b)


def list_method(E, l, name):
    def append(E, a, k):
        l.items = l.items + (One(a[0]),)

    def extend(E, a, k):
        l.items = l.items + tuple(E.segments(a[0]))

    def insert(E, a, k):
        if l.concrete() and isinstance(a[0], int):
            x = list(l.items)
            x.insert(a[0], One(a[1]))
            l.items = tuple(x)
            return
        raise Unsupported("list.insert")

    def pop(E, a, k):
        if not l.concrete():
            raise Unsupported("list.pop")
        if not l.items:
            raise PyRaise(ExcV(IndexError))
        x = list(l.items)
        r = x.pop(*a)
        l.items = tuple(x)
        return r.elem

    def sort(E, a, k):
        r = sorted_(E, [l], k)
        l.items = tuple(E.segments(r))
        if isinstance(r, SortedV):
            l.ordered = (l.items, r.key, r.rev)     # holds while the items are these

    def reverse(E, a, k):
        if l.concrete():
            l.items = tuple(reversed(l.items))
            return
        raise Unsupported("list.reverse")

    def clear(E, a, k):
        l.items = ()

    def index(E, a, k):
        raise Unsupported("list.index")
    tbl = {"append": append, "extend": extend, "insert": insert, "pop": pop, "sort": sort, "reverse": reverse,
           "clear": clear, "copy": lambda E, a, k: ListV(E, l.items),
           "__iter__": lambda E, a, k: l, "__len__": lambda E, a, k: len_(E, [l], {})}
    if name not in tbl:
        raise Unsupported(f"list.{name}")
    return BuiltinV("list." + name, tbl[name])


def dict_update(E, d, src):
    if isinstance(src, DictV):
        for k, v in src.d.items():
            setitem(E, d, k.v if isinstance(k, SymKey) else k, v)
    elif isinstance(src, dict):
        for k, v in src.items():
            setitem(E, d, k, v)
    elif isinstance(src, MapV) and isinstance(d, MapV):
        sn = MapV(E, src.ksort, src.vsort, src.has0, src.get0)
        sn.ops = src.ops
        if not (d.ksort.eq(src.ksort) and d.vsort.eq(src.vsort)):
            raise Unsupported("update of differently typed maps")
        d.ops = d.ops + (DOp(lambda x: TRUE, sn.has, sn.get),)
    elif isinstance(src, MapV) and isinstance(d, DictV) and not d.d:
        raise Unsupported("dict.update from a symbolic map")
    else:
        for g in E.segments(src):
            if not isinstance(g, One):
                raise Unsupported("dict.update from an unknown sequence")
            k, v = [o.elem for o in E.concrete_items(g.elem)]
            setitem(E, d, k, v)


def dict_method(E, d, name):
    def get(E, a, k):
        dflt = a[1] if len(a) > 1 else k.get("default")
        if isinstance(d, DictV):
            kk = conc_key(E, d.d, a[0])
            return dflt if kk is None else d.d[kk]
        if isinstance(d, MapV):
            t = E.term(a[0], d.ksort)
            if E.decide(d.has(t)):
                return d.vwrap(d.get(t))
            return dflt
        if isinstance(d, IndexRef):
            if E.decide(E.idx_has(d, E.uterm(a[0]))):
                return E.idx_get(d, E.uterm(a[0]))
            return dflt

    def setdefault(E, a, k):
        if not E.decide(contains(E, d, a[0])):
            if isinstance(d, IndexRef):
                raise Unsupported("setdefault on an index")
            setitem(E, d, a[0], a[1] if len(a) > 1 else None)
        return getitem(E, d, a[0])

    def pop(E, a, k):
        if E.decide(contains(E, d, a[0])):
            v = getitem(E, d, a[0])
            delitem(E, d, a[0])
            return v
        if len(a) > 1:
            return a[1]
        raise PyRaise(ExcV(KeyError, (a[0],)))

    def items(E, a, k):
        if isinstance(d, DictV):
            return SeqV([One(TupV(tuple, [kk.v if isinstance(kk, SymKey) else kk, v])) for kk, v in d.d.items()], (d,))
        if isinstance(d, MapV):
            kc = z3.FreshConst(d.ksort, "k")
            return SeqV([Seg([kc], d.has(kc), TupV(tuple, [d.kwrap(kc), d.vwrap(d.get(kc))]))], (d,))
        kc = z3.FreshConst(U, "k")
        r = d
        return SeqV([Seg([kc], E.idx_has(r, kc), TupV(tuple, [UV(kc), idx_value(E, r, kc)]))], (d.root,))

    def values(E, a, k):
        s = items(E, a, k)
        return SeqV([One(g.elem.items[1]) if isinstance(g, One) else Seg(g.bs, g.guard, g.elem.items[1]) for g in s.segs], s.deps)

    def keys(E, a, k):
        s = items(E, a, k)
        return SeqV([One(g.elem.items[0]) if isinstance(g, One) else Seg(g.bs, g.guard, g.elem.items[0]) for g in s.segs], s.deps)

    def clear(E, a, k):
        if isinstance(d, DictV):
            d.d = {}
        elif isinstance(d, MapV):
            d.ops = d.ops + (DOp(lambda x: FALSE, lambda x: FALSE, None),)
        else:
            raise Unsupported("index clear")

    def update(E, a, k):
        for v in a:
            dict_update(E, d, v)
        for kk, v in k.items():
            setitem(E, d, kk, v)

    def copy(E, a, k):
        return make_dict(E, d.cls, [d], {})
    tbl = {"get": get, "setdefault": setdefault, "pop": pop, "items": items, "values": values, "keys": keys,
           "clear": clear, "update": update, "copy": copy,
           "__getitem__": lambda E, a, k: getitem(E, d, a[0]),
           "__setitem__": lambda E, a, k: setitem(E, d, a[0], a[1]),
           "__contains__": lambda E, a, k: wrap_bool(contains(E, d, a[0])),
           "__iter__": lambda E, a, k: keys(E, a, k)}
    if name not in tbl:
        raise Unsupported(f"dict.{name}")
    if isinstance(d, (DictV, MapV)) and name not in ("__getitem__", "__setitem__"):
        m = E.class_lookup(d.cls, name)
        if isinstance(m, types.FunctionType):
            return BoundV(m, d)
    return BuiltinV("dict." + name, tbl[name])


def idx_value(E, r, k):
    p = r.path + (k,)
    if len(p) == 3:
        return E.from_term(r.root.leaf(*p), T3)
    return IndexRef(r.root, p)


def tuple_method(E, t, name):
    def index(E, a, k):
        for i, x in enumerate(t.items):
            if E.decide(E.equal(x, a[0])):
                return i
        raise PyRaise(ExcV(ValueError))
    tbl = {"index": index, "__iter__": lambda E, a, k: SeqV(E.segments(t)),
           "__getitem__": lambda E, a, k: getitem(E, t, a[0]), "__len__": lambda E, a, k: len(t.items),
           "__eq__": lambda E, a, k: wrap_bool(E.equal(TupV(tuple, t.items), a[0])),
           "__hash__": lambda E, a, k: UV(z3.Function("hash", U, U)(E.uterm(t)))}
    if name not in tbl:
        raise Unsupported(f"tuple.{name}")
    return BuiltinV("tuple." + name, tbl[name])


def method(E, v, name):
    from . import strings
    if isinstance(v, SetV):
        return set_method(E, v, name)
    if isinstance(v, ListV):
        return list_method(E, v, name)
    if isinstance(v, (DictV, MapV, IndexRef)):
        return dict_method(E, v, name)
    if isinstance(v, TupV):
        return tuple_method(E, v, name)
    if isinstance(v, StrV):
        return strings.method(E, v, name)
    if isinstance(v, IntV):
        if name == "to_bytes":
            return BuiltinV("int.to_bytes", lambda E, a, k: strings.to_bytes(E, v, a, k))
    if isinstance(v, SeqV):
        if name == "__iter__":
            return BuiltinV("iter", lambda E, a, k: v)
        if name in ("isdisjoint",):
            raise Unsupported("dict view method")
        tmp = ListV(E, v.segs)
        return list_method(E, tmp, name)
    if isinstance(v, LazyV):
        if name == "__next__":
            return BuiltinV("next", lambda E, a, k: next_(E, [v], {}))
        if name == "__iter__":
            return BuiltinV("iter", lambda E, a, k: v)
    m = getattr(v, "pymethod", None)
    if m:
        return m(E, name)
    if isinstance(v, (FuncV, BoundV)) and name in ("__name__",):
        return "f"
    raise Unsupported(f"method {name} of {v!r}")


def concrete_method(E, v, name):
    """methods of concrete python containers/strings that may receive symbolic arguments"""
    from . import strings
    if isinstance(v, str):
        f = getattr(v, name, None)
        if callable(f) and isinstance(f, types.BuiltinMethodType):
            def call(E, a, k):
                if all(is_concrete(x) for x in a) and all(is_concrete(x) for x in k.values()):
                    return E.call_concrete(f, a, k)
                return strings.method(E, StrV([v], type(v)), name).fn(E, a, k)
            return BuiltinV("str." + name, call)
    if isinstance(v, bytes) and name == "join":
        def call(E, a, k):
            if is_concrete(a[0]):
                return E.call_concrete(v.join, a, k)
            if v:
                raise Unsupported("join of bytes with separator")
            return strings.mkstr(strings.pieces(strings.as_bytes(strings.join(E, "", a[0]))), bytes)
        return BuiltinV("bytes.join", call)
    if isinstance(v, dict) and name in ("get", "items", "keys", "values"):
        def call(E, a, k):
            if all(is_concrete(x) for x in a):
                return E.call_concrete(getattr(v, name), a, k)
            kk = conc_key(E, v, a[0])
            if kk is None:
                return a[1] if len(a) > 1 else None
            return v[kk]
        return BuiltinV("dict." + name, call)
    if isinstance(v, types.BuiltinMethodType):
        return None
    import re
    if isinstance(v, re.Pattern):
        return strings.re_method(E, v, name)
    return None


# ---- builtins -----------------------------------------------------------------------------

@model(isinstance)
def isinstance_(E, a, k):
    return wrap_bool(E.isinstance_(a[0], a[1]))


@model(issubclass)
def issubclass_(E, a, k):
    if isinstance(a[0], type) and isinstance(a[1], (type, tuple)):
        return issubclass(a[0], a[1])
    if isinstance(a[0], OpaqueV) and "$issubclass" in a[0].attrs:
        return wrap_bool(a[0].attrs["$issubclass"](a[1]))
    if getattr(E, "u_issubclass_hook", None):
        return wrap_bool(E.u_issubclass_hook(E, a[0], a[1]))
    raise Unsupported("issubclass")


@model(hasattr)
def hasattr_(E, a, k):
    return wrap_bool(E.hasattr_(a[0], a[1]))


@model(getattr)
def getattr_(E, a, k):
    if len(a) == 3:
        h = E.hasattr_(a[0], a[1])
        if not E.decide(h):
            return a[2]
    return E.getattr_(a[0], a[1])


@model(setattr)
def setattr_(E, a, k):
    E.setattr_(a[0], a[1], a[2])


@model(callable)
def callable_(E, a, k):
    v = a[0]
    if isinstance(v, (FuncV, BoundV, BuiltinV)):
        return True
    if isinstance(v, Val):
        raise Unsupported("callable")
    return callable(v)


@model(len)
def len_(E, a, k):
    from . import strings
    v = a[0]
    if isinstance(v, TupV):
        return len(v.items)
    if isinstance(v, DictV):
        return len(v.d)
    if isinstance(v, SeqV) and getattr(v, "count", None) is not None:
        return IntV(v.count)
    if isinstance(v, (ListV, SeqV)):
        segs = E.segments(v)
        if all(isinstance(s, One) for s in segs):
            return len(segs)
        if all(isinstance(s, One) or isinstance(s.ordered, IdxOrd) for s in segs):
            n = sum(isinstance(s, One) for s in segs)
            for s in segs:
                if isinstance(s, Seg):
                    n = z3.If(s.ordered.hi > s.ordered.lo, s.ordered.hi - s.ordered.lo, z3.IntVal(0)) + n
            return IntV(z3.simplify(n))
        return count_segs(E, segs)
    if isinstance(v, SetV):
        if v.card is not None:
            return IntV(z3.simplify(v.card)) if not isinstance(v.card, int) else v.card
        if v.sort is None:
            return 0
        return count_segs(E, v.segs(), unique=True)
    if isinstance(v, (StrV, str)):
        return strings.length(E, v)
    if isinstance(v, OpaqueV) and "__len__" in v.methods:
        return v.methods["__len__"](E, [], {})
    if isinstance(v, (Obj, RecV)):
        m = E.class_lookup(v.cls, "__len__")
        if m is None:
            raise PyRaise(ExcV(TypeError))
        return E.call(E.bind(m, v, v.cls), [], {})
    if isinstance(v, (LazyV, UV)):
        if isinstance(v, UV):
            return strings.length(E, strings.as_str(E, v))
        raise PyRaise(ExcV(TypeError))
    if isinstance(v, (MapV, IndexRef)):
        return count_segs(E, E.segments(v), unique=True)
    return len(v)


def count_segs(E, segs, unique=False):
    """number of elements: exact facts for 0, 1 and more than one"""
    n = E.fresh("len", INT)
    E.assume(n >= 0)
    some, two = [], []
    ones = sum(isinstance(s, One) for s in segs)
    sym = [s for s in segs if not isinstance(s, One)]
    exs = []
    for s in sym:
        exs.append(ex(s.bs, s.guard))
        b2 = [z3.FreshConst(b.sort(), "b") for b in s.bs]
        g2, _ = s.inst(b2)
        two.append(ex(s.bs + b2, conj([s.guard, g2, z3.Not(conj([x == y for x, y in zip(s.bs, b2)]))])))
    for i in range(len(sym)):
        for j in range(i):
            two.append(conj([exs[i], exs[j]]))
    if ones == 0:
        E.assume((n >= 1) == disj(exs))
        E.assume((n >= 2) == disj(two))
    elif ones == 1:
        E.assume(n >= 1)
        E.assume((n >= 2) == disj(exs))
    else:
        E.assume(n >= ones)
    return IntV(n)


@model(any)
def any_(E, a, k):
    out = []
    for s in E.segments(a[0]):
        t = E.truth(s.elem)
        if isinstance(s, One):
            if t is True:
                return True
            if t is not False:
                out.append(t)
        else:
            t = z3.BoolVal(t) if isinstance(t, bool) else t
            out.append(ex(s.bs, conj([s.guard, t])))
    return BoolV(z3.simplify(disj(out))) if out else False


@model(all)
def all_(E, a, k):
    out = []
    for s in E.segments(a[0]):
        t = E.truth(s.elem)
        if isinstance(s, One):
            if t is False:
                return False
            if t is not True:
                out.append(t)
        else:
            t = z3.BoolVal(t) if isinstance(t, bool) else t
            out.append(z3.Not(ex(s.bs, conj([s.guard, z3.Not(t)]))))
    return BoolV(z3.simplify(conj(out))) if out else True


class SumV(Val):
    """sum over symbolic groups; compared structurally"""
    cls = int

    def __init__(self, segs):
        self.segs = segs


@model(sum)
def sum_(E, a, k):
    segs = E.segments(a[0])
    if all(isinstance(s, One) for s in segs):
        tot = z3.IntVal(0)
        for s in segs:
            tot = tot + E.zint(s.elem)
        return IntV(z3.simplify(tot))
    h = getattr(E, "sum_hook", None)
    if h:
        r = h(E, segs)
        if r is not None:
            return r
    raise Unsupported("sum over an unknown number of elements")


@model(list)
def list_(E, a, k):
    if not a:
        return ListV(E)
    if isinstance(a[0], str):
        return ListV(E, [One(c) for c in a[0]])
    return ListV(E, E.segments(a[0]))


@model(tuple)
def tuple_(E, a, k):
    if not a:
        return TupV(tuple, [])
    if isinstance(a[0], TupV) and a[0].cls is tuple:
        return a[0]
    segs = E.segments(a[0])
    if all(isinstance(s, One) for s in segs):
        return TupV(tuple, [s.elem for s in segs])
    return SeqV(segs, cls=tuple)


@model(set)
def set_(E, a, k):
    if a and isinstance(a[0], SetV):
        return copy_set(E, a[0], set)
    return make_set(E, E.segments(a[0]) if a else [], set)


@model(frozenset)
def frozenset_(E, a, k):
    if a and isinstance(a[0], SetV):
        return copy_set(E, a[0], frozenset)
    return make_set(E, E.segments(a[0]) if a else [], frozenset)


@model(dict)
def dict_(E, a, k):
    return make_dict(E, dict, a, k)


@model(collections.OrderedDict)
def odict_(E, a, k):
    return make_dict(E, collections.OrderedDict, a, k)


@model(collections.defaultdict)
def defaultdict_(E, a, k):
    d = DictV(E, cls=collections.defaultdict, factory=a[0] if a else None)
    if len(a) > 1:
        dict_update(E, d, a[1])
    return d


@model(iter)
def iter_(E, a, k):
    v = a[0]
    if isinstance(v, (LazyV,)):
        return v
    if isinstance(v, (Obj, RecV)):
        m = E.class_lookup(v.cls, "__iter__")
        if m is not None:
            return E.call(E.bind(m, v, v.cls), [], {})
    if isinstance(v, UV):
        raise Unsupported("iter of an unknown value")
    deps = E.deps(v)
    return LazyV(lambda: E.segments(v), "iter", deps)


@model(next)
def next_(E, a, k):
    v = a[0]
    if isinstance(v, LazyV):
        if not hasattr(v, "buf"):
            v.buf = list(E.segments(v))
        elif v.buf is None:
            raise Unsupported("next on a symbolic iterator twice")
        if not v.buf:
            if len(a) > 1:
                return a[1]
            raise PyRaise(ExcV(StopIteration))
        if isinstance(v.buf[0], One):
            r = v.buf.pop(0).elem
            v.thunk = lambda: v.buf
            v.done = False
            return r
        segs, v.buf = v.buf, None
        if len(a) > 1:
            try:
                return pick(E, segs, StopIteration)
            except PyRaise:
                return a[1]
        return pick(E, segs, StopIteration)
    if isinstance(v, OpaqueV) and "__next__" in v.methods:
        return v.methods["__next__"](E, [], {})
    raise Unsupported("next")


@model(str)
def str__(E, a, k):
    return make_str(E, str, a)


@model(repr)
def repr__(E, a, k):
    from . import strings
    return strings.repr_(E, a[0])


@model(bytes)
def bytes_(E, a, k):
    from . import strings
    if all(is_concrete(x) for x in a) and all(is_concrete(x) for x in k.values()):
        return E.call_concrete(bytes, a, k)
    if len(a) == 1 and isinstance(a[0], StrV) and a[0].cls is bytes:
        return a[0]
    if len(a) != 1 or k or isinstance(a[0], (IntV, BoolV, StrV, UV)):
        raise Unsupported("construct bytes")
    return strings.bytes_of(E, a[0])


@model(urllib.parse.unquote_to_bytes)
def unquote_to_bytes(E, a, k):
    from . import strings
    if is_concrete(a[0]):
        return E.call_concrete(urllib.parse.unquote_to_bytes, a, k)
    return strings.hex_bytes(E, a[0], "%")


def fromhex(E, a, k):
    from . import strings
    if is_concrete(a[0]):
        return E.call_concrete(bytes.fromhex, a, k)
    return strings.hex_bytes(E, a[0], "")


@model(bool)
def bool_(E, a, k):
    if not a:
        return False
    return wrap_bool(E.truth(a[0]))


@model(int)
def int_(E, a, k):
    from . import strings
    return strings.int_(E, a, k)


@model(ord)
def ord_(E, a, k):
    from . import strings
    return strings.ord_(E, a[0])


@model(chr)
def chr_(E, a, k):
    from . import strings
    return strings.chr_(E, a[0])


@model(type)
def type_(E, a, k):
    if len(a) != 1:
        raise Unsupported("type() with three arguments")
    v = a[0]
    if isinstance(v, UV):
        h = getattr(E, "u_type_hook", None)
        if h:
            return h(E, v)
        raise Unsupported("type of an unknown value")
    if isinstance(v, RecV) and "$type" in v.fields:
        return v.fields["$type"]
    if isinstance(v, Val):
        return v.cls
    return type(v)


@model(hash)
def hash_(E, a, k):
    v = a[0]
    if isinstance(v, (Obj, RecV)):
        m = E.class_lookup(v.cls, "__hash__")
        if isinstance(m, types.FunctionType):
            return E.call(E.bind(m, v, v.cls), [], {})
    return UV(z3.Function("hash", U, U)(E.uterm(v)))


@model(id)
def id_(E, a, k):
    v = a[0]
    if isinstance(v, Obj) and "$id" in v.attrs:
        return v.attrs["$id"]
    raise Unsupported("id()")


@model(hex)
def hex_(E, a, k):
    if isinstance(a[0], IntV):
        return StrV(["0x", Hex(a[0].e, 1, upper=False)])
    return hex(a[0])


@model(map)
def map_(E, a, k):
    f = a[0]
    if len(a) == 2:
        src = a[1]

        def thunk():
            from . import loops
            fr = type("F", (), {})
            from .core import Frame
            frame = Frame(E, {}, None)
            frame.out = ListV(E)
            loops.for_loop(E, src, frame, lambda v: frame.locals.__setitem__("$x", v),
                           lambda: E.emit(frame, E.call(f, [frame.locals["$x"]], {})), {"$x"})
            return list(frame.out.items)
        return LazyV(thunk, "map", E.deps(src))
    seqs = [E.concrete_items(s) for s in a[1:]]

    def thunk2():
        return [One(E.call(f, [x.elem for x in xs], {})) for xs in zip(*seqs)]
    return LazyV(thunk2, "map")


@model(filter)
def filter_(E, a, k):
    f, src = a

    def thunk():
        from . import loops
        from .core import Frame
        frame = Frame(E, {}, None)
        frame.out = ListV(E)

        def body():
            x = frame.locals["$x"]
            if E.test(E.call(f, [x], {}) if f is not None else x):
                E.emit(frame, x)
        loops.for_loop(E, src, frame, lambda v: frame.locals.__setitem__("$x", v), body, {"$x"})
        return list(frame.out.items)
    return LazyV(thunk, "filter", E.deps(src))


def idx_at(E, r, i):
    """element number lo + i of an indexed group"""
    seg, lo, hi = r
    i = z3.simplify(lo + i)
    return seg.at(i) if seg.at is not None else seg.inst([i])[1]


def zip_core(E, a, longest):
    n = len(a)
    if n > 1 and isinstance(a[0], LazyV) and all(x is a[0] for x in a):
        # the same iterator n times: chunks of n
        segs = E.segments(a[0])
        if all(isinstance(s, One) for s in segs):
            if len(segs) % n and longest is not False:
                segs = segs + [One(longest)] * (n - len(segs) % n)
            return SeqV([One(TupV(tuple, [x.elem for x in segs[i:i + n]])) for i in range(0, len(segs) - n + 1, n)])
        r = idx_range(segs)
        if r is None:
            raise Unsupported("zip of an iterator with itself")
        seg, lo, hi = r
        if longest is not False and T.prove(E.pcs(), (hi - lo) % n == 0, cex=False).status != "proved":
            raise Unsupported("chunks of a sequence of unknown length")
        m = z3.simplify((hi - lo) / n)
        return idx_seq(m, lambda q: TupV(tuple, [idx_at(E, r, n * q + j) for j in range(n)]))
    segs = [E.segments(x) for x in a]
    rs = [idx_range(s) for s in segs]
    if a and all(r is not None for r in rs):
        ls = [z3.simplify(r[2] - r[1]) for r in rs]
        if all(l.eq(ls[0]) or T.prove(E.pcs(), l == ls[0], cex=False).status == "proved" for l in ls[1:]):
            return idx_seq(ls[0], lambda q: TupV(tuple, [idx_at(E, r, q) for r in rs]))
    if not all(isinstance(s, One) for x in segs for s in x):
        raise Unsupported("length of a sequence is unknown")
    if longest is not False:
        m = max((len(x) for x in segs), default=0)
        segs = [x + [One(longest)] * (m - len(x)) for x in segs]
    return SeqV([One(TupV(tuple, [x.elem for x in xs])) for xs in zip(*segs)])


@model(zip)
def zip_(E, a, k):
    return zip_core(E, a, False)


@model(itertools.zip_longest)
def zip_longest_(E, a, k):
    return zip_core(E, a, k.get("fillvalue"))


@model(itertools.chain)
def chain_(E, a, k):
    return SeqV([s for x in a for s in E.segments(x)])


@model(enumerate)
def enumerate_(E, a, k):
    segs = E.segments(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if all(isinstance(s, One) for s in segs):
        return SeqV([One(TupV(tuple, [i + start, s.elem])) for i, s in enumerate(segs)])
    r = idx_range(segs)
    if r is not None:
        return idx_seq(z3.simplify(r[2] - r[1]), lambda q: TupV(tuple, [IntV(z3.simplify(q + start)), idx_at(E, r, q)]))
    if len(segs) == 1 and isinstance(segs[0], Seg):
        s = segs[0]
        pos = z3.Function(f"pos!{E.counter}", *[b.sort() for b in s.bs], INT)
        E.counter += 1
        E.assume(T.forall(s.bs, pos(*s.bs) >= start))
        r = Seg(s.bs, s.guard, TupV(tuple, [IntV(pos(*s.bs)), s.elem]), s.ordered)
        r.first = lambda bs: pos(*bs) == start
        return SeqV([r], E.deps(a[0]))
    raise Unsupported("enumerate of several groups")


@model(reversed)
def reversed_(E, a, k):
    segs = E.segments(a[0])
    if all(isinstance(s, One) for s in segs):
        return SeqV(list(reversed(segs)))
    if len(segs) == 1:
        o = segs[0].ordered
        r = Seg(segs[0].bs, segs[0].guard, segs[0].elem, o.rev() if o is not None else None)
        r.at = segs[0].at
        return SeqV([r])
    raise Unsupported("reversed")


@model(range)
def range_(E, a, k):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if isinstance(st, int) and st > 0:
        lo, hi = E.zint(lo), E.zint(hi)
        n = z3.simplify(z3.If(hi > lo, (hi - lo + (st - 1)) / st, z3.IntVal(0)))
        return idx_seq(n, lambda q: IntV(z3.simplify(lo + st * q)))
    if st == -1:
        q = z3.FreshConst(z3.IntSort(), "q")
        lo, hi = z3.simplify(E.zint(hi) + 1), z3.simplify(E.zint(lo) + 1)
        top = z3.simplify(z3.If(hi > lo, hi, lo))
        return SeqV([Seg([q], conj([lo <= q, q < top]), IntV(q), IdxOrd(lo, top, True))])
    raise Unsupported("symbolic range")


@model(sorted)
def sorted_(E, a, k):
    segs = E.segments(a[0])
    key = k.get("key")
    rev = k.get("reverse", False)
    if all(isinstance(s, One) and is_concrete(s.elem) for s in segs) and not isinstance(key, Val) and not key:
        return ListV(E, [One(x) for x in sorted((E.lower(s.elem) for s in segs), reverse=rev)])
    if not isinstance(rev, bool):
        raise Unsupported("sorted with a computed direction")
    if all(isinstance(s, One) for s in segs):
        return ListV(E, [One(x) for x in order_few(E, [s.elem for s in segs], key, rev)])
    return SortedV(E, segs, key, rev)


def order_few(E, xs, key, rev):
    """the elements of a finite list in sorted (stable) order, by cases on the outcomes of the comparisons"""
    ks = [x if key is None else E.call(key, [x], {}) for x in xs]
    if all(is_concrete(k) for k in ks):
        ks = [E.lower(k) for k in ks]
        return [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i], reverse=rev)]
    if len(xs) > 4:
        raise Unsupported("sorting many symbolic elements")

    def before(i, j):           # i must come before j (i is the later one of two in the input)
        a, b = (ks[j], ks[i]) if rev else (ks[i], ks[j])
        if all(isinstance(v, (int, IntV)) for v in (a, b)):
            return E.decide(E.zint(a) < E.zint(b))
        return E.decide(z3.FreshConst(z3.BoolSort(), "before"))   # any order is possible
    out = []
    for i in range(len(xs)):
        p = len(out)
        while p and before(i, out[p - 1]):
            p -= 1
        out.insert(p, i)
    return [xs[i] for i in out]


class SortedV(ListV):
    """result of sorted(): same elements; element 0 has a minimal key (maximal when reversed)"""

    def __init__(self, E, segs, key, rev):
        super().__init__(E, segs)
        self.key, self.rev = key, rev
        self.ordered = (self.items, key, rev)


_old_getitem = getitem


def getitem(E, o, k):  # noqa: F811
    if isinstance(o, ListV) and isinstance(k, int) and not isinstance(k, bool) and k in (0, -1) and not o.concrete():
        srt = getattr(o, "ordered", None)
        if srt is not None and srt[0] is o.items:
            w = pick(E, list(o.items), IndexError)
            best_of(E, o.items, w, srt[1], (k == 0) != bool(srt[2]))
            return w
    return _old_getitem(E, o, k)


def best_of(E, items, w, key, minimal):
    kw = w if key is None else E.call(key, [w], {})
    for s in items:
        if isinstance(s, One):
            ks = s.elem if key is None else E.call(key, [s.elem], {})
            E.assume(E.zint(kw) <= E.zint(ks) if minimal else E.zint(kw) >= E.zint(ks))
        else:
            bs = [z3.FreshConst(b.sort(), "b") for b in s.bs]
            g, el = s.inst(bs)
            ks = el if key is None else E.call(key, [el], {})
            c = (E.zint(kw) <= E.zint(ks)) if minimal else (E.zint(kw) >= E.zint(ks))
            E.assume(T.forall(bs, z3.Implies(g, c)))


def minmax(minimal):
    def f(E, a, k):
        key = k.get("key")
        if len(a) > 1:
            segs = [One(x) for x in a]
        else:
            segs = E.segments(a[0])
        if all(isinstance(s, One) and is_concrete(s.elem) for s in segs) and key is None and segs:
            xs = [E.lower(s.elem) for s in segs]
            return min(xs) if minimal else max(xs)
        if "default" in k:
            try:
                w = pick(E, segs, ValueError)
            except PyRaise:
                return k["default"]
        else:
            w = pick(E, segs, ValueError)
        if all(isinstance(s, One) for s in segs) and key is None and all(isinstance(s.elem, (int, IntV)) for s in segs):
            r = E.zint(segs[0].elem)
            for s in segs[1:]:
                x = E.zint(s.elem)
                r = z3.If((x < r) if minimal else (x > r), x, r)
            return IntV(r)
        best_of(E, segs, w, key, minimal)
        return w
    return f


MODELS[id(min)] = (min, minmax(True))
MODELS[id(max)] = (max, minmax(False))


@model(re.sub)
def re_sub(E, a, k):
    from . import regex
    if len(a) != 3 or k or not isinstance(a[0], (str, re.Pattern)):
        raise Unsupported("re.sub with options")
    return regex.sub(E, a[0], a[1], a[2])


def _re_function(name):
    def f(E, a, k):
        from . import regex
        if len(a) != 2 or k or not isinstance(a[0], (str, re.Pattern)):
            raise Unsupported("re function with options")
        return E.call(regex.re_method(E, re.compile(a[0]), name), [a[1]], {})
    return f


for _n in ("fullmatch", "match", "search"):
    MODELS[id(getattr(re, _n))] = (getattr(re, _n), _re_function(_n))


@model(object)
def object_(E, a, k):
    return Obj(E, object)


def tuple_new(E, a, k):
    cls = a[0]
    segs = E.segments(a[1]) if len(a) > 1 else []
    if not all(isinstance(s, One) for s in segs):
        r = SeqV(segs, cls=cls)
        r.count = getattr(a[1], "count", None)
        return r
    return TupV(cls, [s.elem for s in segs])


MODELS[id(tuple.__new__)] = (tuple.__new__, tuple_new)


@model(operator.itemgetter)
def itemgetter_(E, a, k):
    return operator.itemgetter(*a)

"""Symbolic values and heap objects of the executor."""
import z3
from . import terms as T
from .terms import U, T3, Q4, P2, STR, INT, BOOL, NONE, mk, proj, conj, disj, ex, subst


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a violation)."""


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc  # ExcV


class Val:
    cls = object

    def sub(self, pairs):
        return self


class Poison(Val):
    def __init__(self, why):
        self.why = why


class UV(Val):
    """An arbitrary python value / RDF term, up to ==."""

    def __init__(self, e):
        self.e = e

    def sub(self, p):
        return UV(subst(self.e, p))

    def __repr__(self):
        return f"UV({self.e})"


class BoolV(Val):
    cls = bool

    def __init__(self, e):
        self.e = e

    def sub(self, p):
        return BoolV(subst(self.e, p))

    def __repr__(self):
        return f"BoolV({self.e})"


class IntV(Val):
    cls = int

    def __init__(self, e):
        self.e = e

    def sub(self, p):
        return IntV(subst(self.e, p))

    def __repr__(self):
        return f"IntV({self.e})"


class TupV(Val):
    """tuple or tuple subclass with known length"""

    def __init__(self, cls, items, term=None):
        self.cls, self.items, self.term = cls, tuple(items), term

    def sub(self, p):
        return TupV(self.cls, [subv(i, p) for i in self.items],
                    None if self.term is None else subst(self.term, p))

    def __repr__(self):
        return f"{self.cls.__name__}{self.items}"


class RecV(Val):
    """Immutable record standing for a freshly built object described by its contract."""

    def __init__(self, cls, fields, tag=None):
        self.cls, self.fields, self.tag = cls, dict(fields), tag

    def sub(self, p):
        return RecV(self.cls, {k: subv(v, p) for k, v in self.fields.items()}, self.tag)

    def __repr__(self):
        return f"Rec<{getattr(self.cls, '__name__', self.cls)} {self.fields}>"


class OpaqueV(Val):
    """A named opaque object (identity by name); attribute access / calls via handlers."""

    def __init__(self, name, cls=object, attrs=None, call=None, methods=None):
        self.name, self.cls, self.attrs, self.call, self.methods = name, cls, attrs or {}, call, methods or {}

    def __repr__(self):
        return f"<{self.name}>"


class ExcV(Val):
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return f"Exc({self.cls.__name__})"


class FuncV(Val):
    def __init__(self, node, env, glob, name, owner=None, defaults=(), kwdefaults=None, real=None):
        self.node, self.env, self.glob, self.name = node, env, glob, name
        self.owner, self.defaults, self.kwdefaults, self.real = owner, defaults, kwdefaults or {}, real

    def __repr__(self):
        return f"<func {self.name}>"


class BoundV(Val):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f"<bound {self.func} of {self.self_}>"


class BuiltinV(Val):
    """Model of a builtin (method): fn(E, args, kwargs)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


def subv(v, pairs):
    if isinstance(v, Val):
        return v.sub(pairs)
    return v


# ----- sequences --------------------------------------------------------------------

class Seg:
    """{ elem(b) | guard(b) } : one group of elements, one per value of the bound variables.
    ordered: None, or an OrdInfo naming the index function."""

    at = None
    first = None        # condition on the binders for being the first element, where it is known

    def __init__(self, bs, guard, elem, ordered=None):
        self.bs, self.guard, self.elem, self.ordered = list(bs), guard, elem, ordered

    def sub(self, p):
        p = [(a, b) for a, b in p if not any(a.eq(x) for x in self.bs)]
        o = self.ordered
        r = Seg(self.bs, subst(self.guard, p), subv(self.elem, p), o.sub(p) if isinstance(o, IdxOrd) else o)
        if self.at is not None:
            r.at = lambda i, f=self.at: subv(f(i), p)
        if self.first is not None:
            r.first = lambda bs, f=self.first: subst(f(bs), p)
        return r

    def inst(self, new):
        p = list(zip(self.bs, new))
        return subst(self.guard, p), subv(self.elem, p)

    def __repr__(self):
        return f"Seg({self.bs} | {self.guard} -> {self.elem})"


class IdxOrd:
    """marks a segment with one integer binder as 'elements lo, lo+1, ... hi-1, in this (or the reverse) order'"""

    def __init__(self, lo, hi, desc=False):
        self.lo, self.hi, self.desc = lo, hi, desc

    def rev(self):
        return IdxOrd(self.lo, self.hi, not self.desc)

    def sub(self, p):
        return IdxOrd(subst(self.lo, p), subst(self.hi, p), self.desc)


def idx_seq(n, elem, E=None):
    """the sequence elem(0), ... elem(n-1)"""
    q = z3.FreshConst(z3.IntSort(), "q")
    lo = z3.IntVal(0)
    seg = Seg([q], z3.And(lo <= q, q < n), elem(q), IdxOrd(lo, n))
    seg.at = elem
    r = SeqV([seg])
    r.count = n
    return r


def idx_range(segs):
    """(Seg, lo, hi) of a sequence made of exactly one indexed group in ascending order"""
    if len(segs) == 1 and isinstance(segs[0], Seg) and isinstance(segs[0].ordered, IdxOrd) and not segs[0].ordered.desc:
        return segs[0], segs[0].ordered.lo, segs[0].ordered.hi
    return None


class One:
    def __init__(self, v):
        self.elem = v

    def sub(self, p):
        return One(subv(self.elem, p))

    def __repr__(self):
        return f"One({self.elem})"


class SeqV(Val):
    """Immutable sequence given by segments. kind: list-like value name for typing."""

    def __init__(self, segs, deps=(), cls=list):
        self.segs, self.deps, self.cls = list(segs), tuple(deps), cls

    def sub(self, p):
        r = SeqV([s.sub(p) for s in self.segs], self.deps, self.cls)
        if getattr(self, "count", None) is not None:
            r.count = subst(self.count, p)
        return r

    def __repr__(self):
        return f"Seq{self.segs}"


class LazyV(Val):
    """A generator: thunk() -> list of segs, evaluated when consumed."""

    def __init__(self, thunk, name="generator", deps=()):
        self.thunk, self.name, self.deps = thunk, name, deps
        self.done = False


# ----- heap ---------------------------------------------------------------------------

class HeapObj(Val):
    FIELDS = ()

    def snap(self):
        return tuple(getattr(self, f) for f in self.FIELDS)

    def restore(self, s):
        for f, v in zip(self.FIELDS, s):
            setattr(self, f, v)


class GhostV(HeapObj):
    """ghost state of a contract: changed by contracts only. A loop must leave it the same after every round (it may differ
    before the first)."""
    FIELDS = ("state",)

    def __init__(self, E, state, name):
        self.state, self.name = state, name
        E.register(self)

    def loop_diff(self, b, s):
        return False

    def same(self, a, b):
        return len(a) == len(b) and all(x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) or
                                        (not z3.is_expr(x) and not z3.is_expr(y) and x == y) for x, y in zip(a, b))


class Obj(HeapObj):
    def __init__(self, E, cls, attrs=None, name=None):
        self.cls, self.attrs, self.name = cls, dict(attrs or {}), name
        E.register(self)

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = dict(s)

    def __repr__(self):
        return f"<{self.cls.__name__} {self.name or hex(id(self))}>"


class Frame(HeapObj):
    def __init__(self, E, glob, func, parent=None):
        self.locals, self.glob, self.func, self.parent = {}, glob, func, parent
        self.out = None  # ListV for generator frames
        self.nonlocals = set()
        E.register(self)

    def snap(self):
        return dict(self.locals)

    def restore(self, s):
        self.locals = dict(s)


class Aff:
    """Set transformer  mem' = (mem and K) or A."""
    __slots__ = ("K", "A", "note")

    def __init__(self, K, A, note=""):
        self.K, self.A, self.note = K, A, note


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class SetV(HeapObj):
    """A python set over one element sort.  base: term -> Bool."""
    FIELDS = ("sort", "base", "ops", "card")

    def __init__(self, E, sort=None, base=None, cls=set, name=None, card=None):
        self.E, self.sort, self.base, self.ops, self.cls, self.name = E, sort, base, (), cls, name
        self.card = card
        E.register(self)

    def mem(self, x):
        m = self.base(x) if self.base is not None else FALSE
        for op in self.ops:
            m = disj([conj([m, op.K(x)]), op.A(x)])
        return m

    def apply(self, op, card=None):
        self.ops = self.ops + (op,)
        self.card = card

    def coerce(self, v):
        """term for element v, fixing the sort on first use"""
        if self.sort is None:
            self.sort = self.E.sort_of(v)
        return self.E.term(v, self.sort)

    def add(self, v):
        t = self.coerce(v)
        c = self.card_expr()
        was = self.mem(t)
        self.apply(Aff(lambda x: TRUE, lambda x: x == t, "add"),
                   None if c is None else c + z3.If(was, 0, 1))

    def remove_term(self, t):
        c = self.card_expr()
        was = self.mem(t)
        self.apply(Aff(lambda x: x != t, lambda x: FALSE, "remove"),
                   None if c is None else c - z3.If(was, 1, 0))

    def card_expr(self):
        return self.card

    def segs(self):
        if self.sort is None:
            return []
        x = z3.FreshConst(self.sort, "e")
        return [Seg([x], self.mem(x), self.E.from_term(x, self.sort))]

    def __repr__(self):
        return f"SetV({self.name})"


class ListV(HeapObj):
    FIELDS = ("items",)
    cls = list

    def __init__(self, E, items=()):
        self.E = E
        self.items = tuple(items)  # One | Seg
        E.register(self)

    def concrete(self):
        return all(isinstance(i, One) for i in self.items)

    def __repr__(self):
        return f"ListV{self.items}"


class DictV(HeapObj):
    """dict with concrete (hashable python) keys and arbitrary values, insertion ordered."""
    FIELDS = ("d",)

    def __init__(self, E, d=None, cls=dict, factory=None):
        self.E, self.d, self.cls, self.factory = E, dict(d or {}), cls, factory
        self.attrs = {}
        E.register(self)

    def snap(self):
        return (dict(self.d), dict(self.attrs))

    def restore(self, s):
        self.d, self.attrs = dict(s[0]), dict(s[1])

    def __repr__(self):
        return f"DictV({self.d})"


class DOp:
    """Map transformer: has' = (has and K) or A ; on A the value is val(k) (a term)."""
    __slots__ = ("K", "A", "val")

    def __init__(self, K, A, val):
        self.K, self.A, self.val = K, A, val


class MapV(HeapObj):
    """Symbolic dict: key sort -> value sort.  factory: None or fn(E,keyterm)->value term."""
    FIELDS = ("has0", "get0", "ops")

    def __init__(self, E, ksort, vsort, has0=None, get0=None, cls=dict, name=None, factory=None, vwrap=None, kwrap=None):
        self.E, self.ksort, self.vsort, self.cls, self.name = E, ksort, vsort, cls, name
        self.has0 = has0 or (lambda k: FALSE)
        self.get0 = get0
        self.ops = ()
        self.attrs = {}
        self.factory = factory
        self.vwrap = vwrap or (lambda e: E.from_term(e, vsort))
        self.kwrap = kwrap or (lambda e: E.from_term(e, ksort))
        E.register(self)

    def snap(self):
        return (self.has0, self.get0, self.ops, dict(self.attrs))

    def restore(self, s):
        self.has0, self.get0, self.ops = s[:3]
        self.attrs = dict(s[3])

    def has(self, k):
        h = self.has0(k)
        for op in self.ops:
            h = disj([conj([h, op.K(k)]), op.A(k)])
        return z3.simplify(h)

    def get(self, k):
        v = self.get0(k) if self.get0 is not None else None
        for op in self.ops:
            a = z3.simplify(op.A(k))
            if z3.is_true(a):
                v = op.val(k)
            elif z3.is_false(a):
                pass
            elif v is None:
                v = op.val(k)
            else:
                v = z3.If(a, op.val(k), v)
        if v is None:
            v = z3.FreshConst(self.vsort, "undef")
        return v

    def set(self, k, v):
        self.ops = self.ops + (DOp(lambda x: TRUE, lambda x: x == k, lambda x: v),)

    def delete(self, k):
        self.ops = self.ops + (DOp(lambda x: x != k, lambda x: FALSE, None),)

    def __repr__(self):
        return f"MapV({self.name})"


class IndexV(HeapObj):
    """Three level nested defaultdict index (owned tree).  h1(a), h2(a,b), h3(a,b,c): key present at
    that level; leaf(a,b,c): stored triple term."""
    FIELDS = ("h1", "h2", "h3", "leaf")

    def __init__(self, E, h1, h2, h3, leaf, name, auto=True):
        self.E, self.h1, self.h2, self.h3, self.leaf, self.name, self.auto = E, h1, h2, h3, leaf, name, auto
        E.register(self)


class IndexRef(Val):
    """Sub-dict of an IndexV at a path of 0..2 keys."""

    def __init__(self, root, path):
        self.root, self.path = root, tuple(path)

    def sub(self, p):
        return IndexRef(self.root, [subst(k, p) for k in self.path])

    def __repr__(self):
        return f"{self.root.name}{list(self.path)}"


# ----- strings ------------------------------------------------------------------------

class Ch:
    def __init__(self, code):
        self.code = code

    def sub(self, p):
        return Ch(subst(self.code, p))

    def __repr__(self):
        return f"Ch({self.code})"


class Hex:
    """code written in base 16, zero padded to at least `width` digits"""

    def __init__(self, code, width, upper=True):
        self.code, self.width, self.upper = code, width, upper

    def sub(self, p):
        return Hex(subst(self.code, p), self.width, self.upper)

    def __repr__(self):
        return f"Hex({self.code},{self.width})"


class Units:
    """an arbitrary sequence over an abstract alphabet (numbers c with guard(c)); u is a name for the sequence"""

    def __init__(self, name, guard):
        self.name, self.guard = name, guard
        self.occ = z3.Function("occurs_in_" + name, z3.IntSort(), z3.BoolSort())

    def __repr__(self):
        return f"Units({self.name})"


class Zs:
    """opaque z3 string"""

    def __init__(self, e):
        self.e = e

    def sub(self, p):
        return Zs(subst(self.e, p))

    def __repr__(self):
        return f"Z({self.e})"


class JoinP:
    """an ordered sequence of texts with a separator between them"""

    def __init__(self, sep, segs):
        self.sep, self.segs = sep, segs

    def sub(self, p):
        return JoinP(self.sep, [s.sub(p) for s in self.segs])


class FM:
    """concatenation over the characters c of src of  case(c) : [(cond(c), pieces(c))]
    src: a name (arbitrary string) ; var: the z3 Int code variable."""

    def __init__(self, src, var, cases):
        self.src, self.var, self.cases = src, var, cases

    def sub(self, p):
        return self

    def __repr__(self):
        return f"FM({self.src},{len(self.cases)})"


class Acc:
    def __init__(self, name):
        self.name = name

    def sub(self, p):
        return self

    def __repr__(self):
        return f"Acc({self.name})"


def zstr(s):
    out = []
    for c in s:
        o = ord(c)
        if 32 <= o < 127 and c not in '\\"':
            out.append(c)
        else:
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


FM_CONST = None     # how a homomorphic string is named as a term (set by pyvc.strings)


class StrV(Val):
    def __init__(self, pieces, cls=str):
        ps = []
        for p in pieces:
            if isinstance(p, str):
                p = str.__str__(p)
                if not p:
                    continue
                if ps and isinstance(ps[-1], str):
                    ps[-1] = ps[-1] + p
                    continue
            ps.append(p)
        self.pieces, self.cls = ps, cls

    def sub(self, p):
        return StrV([x if isinstance(x, str) else x.sub(p) for x in self.pieces], self.cls)

    @property
    def e(self):
        return self.z()

    def z(self):
        parts = []
        for p in self.pieces:
            if isinstance(p, str):
                parts.append(zstr(p))
            elif isinstance(p, Zs):
                parts.append(p.e)
            elif isinstance(p, Ch):
                parts.append(z3.StrFromCode(p.code))
            elif isinstance(p, FM) and FM_CONST is not None:
                parts.append(FM_CONST(p))
            else:
                raise Unsupported(f"string piece {p!r} has no SMT string form")
        if not parts:
            return z3.StringVal("")
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def __repr__(self):
        return f"StrV({self.pieces},{self.cls.__name__})"


def sv(e, cls=str):
    return StrV([Zs(e)], cls)

"""String values: concrete text, SMT strings, single symbolic characters, hex fields and per-character
homomorphisms over an arbitrary source string."""
import re
import sys

import z3
from . import terms as T
from .terms import U, STR, INT, BOOL, NONE, conj, disj, ex, subst
from .values import *
from .values import TRUE, FALSE

MAXCHAR = 0x10FFFF


def as_str(E, v):
    if isinstance(v, (str, StrV)):
        return v
    if isinstance(v, UV):
        return sv(T.strOf(v.e))
    raise Unsupported(f"not a string: {v!r}")


def pieces(v):
    if isinstance(v, str):
        return [str.__str__(v)] if v else []
    return list(v.pieces)


def mkstr(ps, cls=str):
    v = StrV(ps, cls)
    if all(isinstance(p, str) for p in v.pieces) and cls is not bytes:
        s = "".join(v.pieces)
        return s if cls is str else cls(s)
    return v


def concat(E, parts):
    ps = []
    for p in parts:
        ps += pieces(as_str(E, p))
    return mkstr(ps, bytes) if any(isinstance(p, StrV) and p.cls is bytes for p in parts) else mkstr(ps)


def length(E, v):
    if isinstance(v, str):
        return len(v)
    tot, extra = 0, []
    for p in v.pieces:
        if isinstance(p, str):
            tot += len(p)
        elif isinstance(p, Ch):
            tot += 1
        elif isinstance(p, Hex):
            if fits(E, p):
                tot += p.width
            else:
                raise Unsupported("length of a hex field")
        elif isinstance(p, Zs):
            extra.append(z3.Length(p.e))
        else:
            n = z3.Const(f"len_{p.src}", INT) if isinstance(p, FM) and False else None
            if n is None:
                raise Unsupported("length of a homomorphic string")
    if not extra:
        return tot
    e = z3.Sum(*extra) if len(extra) > 1 else extra[0]
    return IntV(e + tot if tot else e)


def fits(E, p):
    """hex field has exactly width digits"""
    return not T.feasible(E.pcs() if E else [], z3.Or(p.code >= 16 ** p.width, p.code < 0))


def str_equal(E, a, b):
    pa, pb = pieces(a), pieces(b)
    # strip common concrete prefixes / align piecewise
    if all(isinstance(p, (str, Zs)) for p in pa + pb):
        if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], Zs) and isinstance(pb[0], Zs) and pa[0].e.eq(pb[0].e):
            return True
        return StrV(pa).z() == StrV(pb).z()
    cs = align(E, pa, pb)
    if cs is None:
        if all(isinstance(p, (str, Zs, Ch, FM)) for p in pa + pb):
            # as two SMT strings
            return StrV(pa).z() == StrV(pb).z()
        raise Unsupported(f"string equality {a!r} == {b!r}")
    if cs is False:
        return False
    r = conj(cs)
    return True if z3.is_true(z3.simplify(r)) else r


HEXD = "0123456789ABCDEFabcdef"


def unit(ps):
    """expand concrete text to single characters"""
    out = []
    for p in ps:
        if isinstance(p, str):
            out += list(p)
        else:
            out.append(p)
    return out


def char_range(c):
    return conj([c >= 0, c <= MAXCHAR])


def src_range(src, c):
    """the characters a string of this kind is made of"""
    if isinstance(src, Units):
        return conj([src.guard(c), src.occ(c)])
    if isinstance(src, Hex):
        if src.upper is None:
            return disj([conj([c >= a, c <= b]) for a, b in ((48, 57), (65, 70), (97, 102))])
        lo = ord("A") if src.upper else ord("a")
        return disj([conj([c >= 48, c <= 57]), conj([c >= lo, c <= lo + 5])])
    return char_range(c)


def same_src(a, b):
    if isinstance(a, Hex) and isinstance(b, Hex):
        return a.code.eq(b.code) and a.width == b.width and a.upper == b.upper
    if a is b:
        return True
    if isinstance(a, Zs) and isinstance(b, Zs):
        return a.e.eq(b.e)
    return isinstance(a, str) and isinstance(b, str) and a == b


class Under:
    """an engine (or none) under one more assumption, for pure questions"""

    def __init__(self, E, g):
        self.E, self.g = E, g

    def pcs(self):
        return (self.E.pcs() if self.E else []) + [self.g]


def letterwise(E, x, y):
    """x and y map the characters of one string: equal if they map every character alike (only sufficient, hence the free
    alternative)"""
    c = z3.FreshConst(INT, "c")
    fs = []
    for X in (x, y):
        fs.append(z3.Implies(src_range(X.src, c), disj([subst(g, [(X.var, c)]) for g, _ in X.cases])))
    for gx, px in x.cases:
        for gy, py in y.cases:
            g = conj([src_range(x.src, c), subst(gx, [(x.var, c)]), subst(gy, [(y.var, c)])])
            if not T.feasible(E.pcs() if E else [], g):
                continue
            r = align(Under(E, g), [p if isinstance(p, str) else p.sub([(x.var, c)]) for p in px],
                      [p if isinstance(p, str) else p.sub([(y.var, c)]) for p in py])
            if r is None:
                raise Unsupported("blocks of different shape")
            fs.append(z3.Implies(g, FALSE if r is False else conj(r)))
    return disj([T.forall([c], conj(fs)), z3.FreshConst(z3.BoolSort(), "other")])


_fm_names = []


def fm_const(fm):
    """a name (an SMT string) for a homomorphic string; two that are provably equal letter by letter have one name"""
    for other, c in _fm_names:
        if same_src(other.src, fm.src):
            if other is fm:
                return c
            try:
                g = letterwise(None, other, fm)
            except Unsupported:
                continue
            if z3.is_or(g) and T.prove([], g.arg(0), timeout=3000).status == "proved":
                return c
    c = z3.FreshConst(STR, "text")
    _fm_names.append((fm, c))
    return c


from . import values as _values
_values.FM_CONST = fm_const


def hex_mapped(E, x, y):
    """equality of two texts made from the digits of two numbers, digit by digit: with one character per digit, different for
    different digits, they are equal just when the numbers are"""
    if x.src.width != y.src.width or x.src.upper != y.src.upper:
        raise Unsupported("digits of different shape")
    c, d = z3.FreshConst(INT, "c"), z3.FreshConst(INT, "d")

    def one(X, v):
        out = []
        for g, ps in X.cases:
            u = unit(ps)
            if len(u) != 1 or not isinstance(u[0], (str, Ch)):
                return None
            code = z3.IntVal(ord(u[0])) if isinstance(u[0], str) else u[0].code
            out.append((subst(g, [(X.var, v)]), subst(code, [(X.var, v)])))
        return out
    mx, my = one(x, c), one(y, d)
    same = x.src.code == y.src.code
    if mx is not None and my is not None:
        rc, rd = src_range(x.src, c), src_range(y.src, d)
        bad = [conj([rc, rd, gx, gy, kx == ky, c != d]) for gx, kx in mx for gy, ky in my]
        bad += [conj([rc, rd, gx, gy, c == d, kx != ky]) for gx, kx in mx for gy, ky in my]
        bad += [conj([rc, z3.Not(disj([g for g, _ in mx]))]), conj([rd, z3.Not(disj([g for g, _ in my]))])]
        if not any(T.feasible(E.pcs(), b) for b in bad):
            return same
    return z3.FreshConst(z3.BoolSort(), "other")


def align(E, pa, pb):
    """piecewise equality of strings of known shape: list of conditions, False, or None"""
    A, B = unit(pa), unit(pb)
    cs = []
    i = j = 0
    while i < len(A) and j < len(B):
        x, y = A[i], B[j]
        if isinstance(x, str) and isinstance(y, str):
            if x != y:
                return False
            i += 1
            j += 1
        elif isinstance(x, Ch) and isinstance(y, (str, Ch)) or isinstance(y, Ch) and isinstance(x, str):
            cx = z3.IntVal(ord(x)) if isinstance(x, str) else x.code
            cy = z3.IntVal(ord(y)) if isinstance(y, str) else y.code
            c = z3.simplify(cx == cy)
            if z3.is_false(c):
                return False
            cs.append(c)
            i += 1
            j += 1
        elif isinstance(x, Hex) and isinstance(y, Hex):
            if x.width == y.width and x.upper == y.upper and (i + 1 == len(A) and j + 1 == len(B) or fits(E, x) and fits(E, y)):
                cs.append(x.code == y.code)
                if x.upper is None and x is not y:
                    cs.append(z3.FreshConst(z3.BoolSort(), "case"))
                i += 1
                j += 1
            elif x.width == y.width and x.width <= 4 and None not in (x.upper, y.upper) and fits(E, x) and fits(E, y):
                # different case: only digits below ten are written alike
                cs.append(conj([x.code == y.code] + [(x.code / 16 ** k) % 16 < 10 for k in range(x.width)]))
                i += 1
                j += 1
            else:
                return None
        elif isinstance(x, FM) and isinstance(y, FM) and x is y:
            i += 1
            j += 1
        elif isinstance(x, FM) and same_src(x.src, y) or isinstance(y, FM) and same_src(y.src, x):
            fm = x if isinstance(x, FM) and same_src(x.src, y) else y
            cs.append(letterwise(E, fm, FM(fm.src, fm.var, [(char_range(fm.var), [Ch(fm.var)])])))
            i += 1
            j += 1
        elif isinstance(x, FM) and isinstance(y, FM) and (same_src(x.src, y.src) or isinstance(x.src, Hex) and isinstance(y.src, Hex)):
            if isinstance(x.src, Hex) and i + 1 == len(A) and j + 1 == len(B):
                cs.append(hex_mapped(E, x, y))
            elif same_src(x.src, y.src):
                cs.append(letterwise(E, x, y))
            else:
                return None
            i += 1
            j += 1
        elif isinstance(x, Zs) and isinstance(y, Zs) and x.e.eq(y.e):
            i += 1
            j += 1
        elif isinstance(x, Hex) and isinstance(y, str) or isinstance(y, Hex) and isinstance(x, str):
            h, other, oi = (x, B, j) if isinstance(x, Hex) else (y, A, i)
            txt = other[oi:oi + h.width]
            if len(txt) < h.width or not all(isinstance(t, str) for t in txt):
                if len(other) - oi < h.width and all(isinstance(t, str) for t in txt):
                    return False
                return None
            if not fits(E, h):
                return None
            s = "".join(txt)
            if h.upper is None:
                return None
            if not all(c in HEXD for c in s) or s != (s.upper() if h.upper else s.lower()):
                return False
            cs.append(h.code == int(s, 16))
            if isinstance(x, Hex):
                i += 1
                j += h.width
            else:
                j += 1
                i += h.width
        else:
            return None
    rest = A[i:] + B[j:]
    if rest:
        if any(isinstance(r, (str, Ch, Hex)) for r in rest):
            return False
        if all(isinstance(r, Zs) for r in rest):
            cs += [r.e == z3.StringVal("") for r in rest]
        else:
            return None
    return cs


def chars(E, v):
    """segments for iterating over the characters of a string"""
    out = []
    for p in v.pieces:
        if isinstance(p, str):
            out += [One(c) for c in p]
        elif isinstance(p, Ch):
            out.append(One(StrV([p])))
        elif isinstance(p, Zs):
            c = z3.FreshConst(INT, "c")
            i = z3.FreshConst(INT, "ci")
            out.append(Seg([c], conj([c >= 0, c <= MAXCHAR]), StrV([Ch(c)]), CharOrd(p)))
        elif isinstance(p, FM):
            us = [(g, unit(ps)) for g, ps in p.cases]
            if not all(len(u) == 1 and isinstance(u[0], (str, Ch)) for _, u in us):
                raise Unsupported("iteration over a homomorphic string")
            o = CharOrd(p.src)
            for g, u in us:
                c = z3.FreshConst(INT, "c")
                b = [(p.var, c)]
                out.append(Seg([c], conj([src_range(p.src, c), subst(g, b)]), StrV([u[0] if isinstance(u[0], str) else Ch(subst(u[0].code, b))]), o))
        elif isinstance(p, Hex):
            c = z3.FreshConst(INT, "c")
            out.append(Seg([c], src_range(p, c), StrV([Ch(c)]), CharOrd(p)))
        else:
            raise Unsupported("iteration over string piece")
    return out


class CharOrd:
    """marks a segment as 'the characters of this string, in order' (characters may repeat)"""

    def __init__(self, src):
        self.src = src

    def rev(self):
        return None


def accumulate(E, init, seg, bs, guard, cases):
    """value of  acc + f(c1) + f(c2) + ...  over an ordered character segment"""
    if not isinstance(seg.ordered, CharOrd):
        raise Unsupported("string accumulated over an unordered collection")
    var = bs[0]
    fm = FM(seg.ordered.src, var, [(c, ps) for c, ps in cases])
    return mkstr(pieces(as_bytes(init)) + [fm], bytes if isinstance(init, bytes) or isinstance(init, StrV) and init.cls is bytes else str)


def join(E, sep, v):
    segs = E.segments(v)
    if all(isinstance(s, One) for s in segs):
        out = []
        for i, s in enumerate(segs):
            if i and sep:
                out += pieces(sep)
            out += pieces(as_str(E, s.elem))
        return mkstr(out)
    if sep == "":
        # groups produced by a loop over the characters of one string
        by = {}
        out = []
        i = 0
        while i < len(segs):
            s = segs[i]
            if isinstance(s, One):
                out += pieces(as_str(E, s.elem))
                i += 1
                continue
            if not isinstance(s.ordered, CharOrd):
                if getattr(E, "opaque_join", False):     # the order is arbitrary: some string
                    return sv(E.fresh_const("joined", T.STR))
                raise Unsupported("join over an unordered collection")
            src = s.ordered
            var = z3.FreshConst(INT, "c")
            cases = []
            while i < len(segs) and isinstance(segs[i], Seg) and segs[i].ordered is src:
                g, e = segs[i].inst([var])
                cases.append((g, pieces(as_str(E, e))))
                i += 1
            # cases must be disjoint (at most one element per character)
            for a in range(len(cases)):
                for b in range(a):
                    if T.feasible(E.pcs(), z3.And(cases[a][0], cases[b][0])):
                        raise Unsupported("several elements per character")
            out.append(FM(src.src, var, cases))
        return mkstr(out)
    if getattr(E, "symbolic_join", False) and isinstance(sep, str) and all(isinstance(s, One) or s.ordered is not None for s in segs):
        return StrV([JoinP(sep, [s if isinstance(s, One) else s.sub([]) for s in segs])])
    raise Unsupported("join with separator over an unknown number of elements")


def order(E, nm, a, b):
    pa, pb = unit(pieces(a)), unit(pieces(b))
    import operator as o
    if len(pa) == 1 and len(pb) == 1:
        f = lambda x: z3.IntVal(ord(x)) if isinstance(x, str) else (x.code if isinstance(x, Ch) else None)
        x, y = f(pa[0]), f(pb[0])
        if x is not None and y is not None:
            return nm(x, y)
    raise Unsupported("string ordering")


def contains(E, s, v):
    if isinstance(v, UV):
        v = as_str(E, v)
    if not isinstance(v, (str, StrV)):
        raise PyRaise(ExcV(TypeError))
    if isinstance(s, str) and isinstance(v, str):
        return v in s
    ps, pv = pieces(s), pieces(v)
    if not pv:
        return True
    # single character against known text
    if len(pv) == 1 and isinstance(pv[0], Ch) and all(isinstance(p, str) for p in ps):
        txt = "".join(ps)
        return disj([pv[0].code == ord(c) for c in sorted(set(txt))]) if txt else False
    if all(isinstance(p, (str, Zs, Ch)) for p in ps + pv):
        return z3.Contains(StrV(ps).z(), StrV(pv).z())
    if isinstance(v, str) and len(v) == 1:
        # character occurring in pieces
        out = []
        for p in ps:
            if isinstance(p, str):
                if v in p:
                    return True
            elif isinstance(p, Ch):
                out.append(p.code == ord(v))
            elif isinstance(p, Zs):
                out.append(z3.Contains(p.e, zstr(v)))
            else:
                raise Unsupported("membership in a homomorphic string")
        return disj(out) if out else False
    raise Unsupported("substring test")


def getitem(E, s, k):
    from .core import SliceV
    if isinstance(s, str):
        if isinstance(k, SliceV):
            if not any(isinstance(x, Val) for x in (k.lo, k.hi, k.step)):
                return s[slice(k.lo, k.hi, k.step)]
            s = StrV([s])
        elif isinstance(k, int):
            try:
                return s[k]
            except IndexError:
                raise PyRaise(ExcV(IndexError))
        elif type(s) is not str and isinstance(k, str) and type(s).__getitem__ is not str.__getitem__:
            return s[k]     # a concrete library object (rdflib.Namespace) indexed by a concrete name
        else:
            raise Unsupported("symbolic string index")
    ps = unit(s.pieces)
    known = all(isinstance(p, (str, Ch)) for p in ps)
    if isinstance(k, SliceV):
        if k.step is not None:
            raise Unsupported("string slice with step")
        lo, hi = k.lo, k.hi
        if known and not isinstance(lo, Val) and not isinstance(hi, Val):
            return mkstr(ps[slice(lo, hi)])
        # strip known single characters at both ends
        if (lo is None or isinstance(lo, int) and lo >= 0) and (hi is None or isinstance(hi, int) and hi < 0):
            front, back = lo or 0, -(hi or 0)
            q = list(ps)
            ok = True
            while front and q:
                if isinstance(q[0], (str, Ch)):
                    q.pop(0)
                    front -= 1
                elif isinstance(q[0], Hex) and q[0].width <= front and fits(E, q[0]):
                    front -= q.pop(0).width
                else:
                    break
            while back and q:
                if isinstance(q[-1], (str, Ch)):
                    q.pop()
                    back -= 1
                elif isinstance(q[-1], Hex) and q[-1].width <= back and fits(E, q[-1]):
                    back -= q.pop().width
                else:
                    break
            if not front and not back:
                return mkstr(q)
            if all(isinstance(p, (str, Zs, Ch)) for p in q):
                z = StrV(q).z()
                n = z3.Length(z)
                ln = n - front - back
                return sv(z3.If(ln > 0, z3.SubString(z, front, ln), z3.StringVal("")))
            raise Unsupported("string slice")
        z = s.z()
        n = z3.Length(z)

        def pos(x, dflt):
            if x is None:
                return dflt
            e = E.zint(x)
            if isinstance(x, int):
                return z3.If(n < x, n, z3.IntVal(x)) if x >= 0 else z3.If(n + x < 0, z3.IntVal(0), n + x)
            return z3.If(e < 0, z3.If(n + e < 0, z3.IntVal(0), n + e), z3.If(e > n, n, e))
        a, b = pos(lo, z3.IntVal(0)), pos(hi, n)
        a, b = z3.simplify(a), z3.simplify(b)
        return sv(z3.If(b > a, z3.SubString(z, a, b - a), z3.StringVal("")))
    if isinstance(k, bool) or not isinstance(k, (int, IntV)):
        raise Unsupported("string index")
    if isinstance(k, int):
        if known:
            try:
                return mkstr([ps[k]])
            except IndexError:
                raise PyRaise(ExcV(IndexError))
        if k >= 0 and all(isinstance(p, (str, Ch)) for p in ps[:k + 1]) and len(ps) > k:
            return mkstr([ps[k]])
        if k < 0 and len(ps) >= -k and all(isinstance(p, (str, Ch)) for p in ps[k:]):
            return mkstr([ps[k]])
        z = s.z()
        n = z3.Length(z)
        if not E.decide(n > k if k >= 0 else n >= -k):
            raise PyRaise(ExcV(IndexError))
        return sv(z3.SubString(z, z3.IntVal(k) if k >= 0 else n + k, 1))
    raise Unsupported("symbolic string index")


def str_(E, v):
    """str(v)"""
    if isinstance(v, str):
        c = E.class_lookup(type(v), "__str__")
        if type(v) is str or not type(v).__module__.startswith("pymantic"):
            return str.__str__(v)
        r = E.call(BoundFor(c, v), [], {})
        return r if type(r) is str else (str.__str__(r) if isinstance(r, str) else r)
    if isinstance(v, StrV):
        m = E.class_lookup(v.cls, "__str__")
        import types
        if isinstance(m, types.FunctionType):
            r = E.call(BoundFor(m, v), [], {})
            if isinstance(r, StrV):
                return StrV(r.pieces)
            return r
        return StrV(v.pieces)
    if isinstance(v, UV):
        h = getattr(E, "u_str_hook", None)
        if h:
            return h(E, v)
        return sv(T.strOf(v.e))
    if isinstance(v, IntV):
        if getattr(E, "int_str", None):
            return E.int_str(v)
        return sv(z3.IntToStr(v.e)) if not T.feasible(E.pcs(), v.e < 0) else \
            sv(z3.If(v.e >= 0, z3.IntToStr(v.e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.e))))
    if isinstance(v, BoolV):
        return "True" if E.decide(v.e) else "False"
    if isinstance(v, (Obj, RecV, TupV)):
        m = E.class_lookup(v.cls, "__str__")
        import types
        if isinstance(m, types.FunctionType):
            r = E.call(E.bind(m, v, v.cls), [], {})
            if not isinstance(r, (str, StrV)):
                if isinstance(r, UV):
                    return as_str(E, r)
                raise PyRaise(ExcV(TypeError))
            return r
        return opaque_text(E, v)
    if isinstance(v, OpaqueV) and "__str__" in v.methods:
        return v.methods["__str__"](E, [], {})
    if isinstance(v, (Val,)):
        return opaque_text(E, v)
    return str(v)


def BoundFor(m, v):
    return BoundV(m, v)


def opaque_text(E, v):
    """an unspecified string (messages, reprs)"""
    return sv(E.fresh("text", STR))


def repr_(E, v):
    if isinstance(v, Val):
        return opaque_text(E, v)
    return repr(v)


def format_spec(E, v, spec):
    if not isinstance(v, Val):
        return format(v, spec)
    m = re.fullmatch(r"0(\d+)([xX])", spec)
    if m and isinstance(v, IntV):
        return StrV([Hex(v.e, int(m.group(1)), m.group(2) == "X")])
    m = re.fullmatch(r"[xX]", spec)
    if m and isinstance(v, IntV):
        return StrV([Hex(v.e, 1, spec == "X")])
    if isinstance(v, IntV) and spec == "d":
        return str_(E, v)
    if isinstance(v, (StrV, UV)) and spec in ("", "s"):
        return str_(E, v)
    return opaque_text(E, v)


def percent(E, fmt, arg):
    if not isinstance(fmt, str):
        raise Unsupported("symbolic format string")
    args = list(arg.items) if isinstance(arg, TupV) and not E.class_lookup(arg.cls, "interfaceName") else [arg]
    if isinstance(arg, tuple) and type(arg) is tuple:
        args = list(arg)
    out = []
    pos = 0
    i = 0
    for m in re.finditer(r"%(%|(0?)(\d*)([sdrxXc]))", fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1) == "%":
            out.append("%")
            continue
        if i >= len(args):
            raise PyRaise(ExcV(TypeError))
        v = args[i]
        i += 1
        conv = m.group(4)
        if not isinstance(v, Val):
            try:
                out.append(("%" + m.group(1)) % (v,))
            except (TypeError, ValueError) as e:
                raise PyRaise(ExcV(type(e)))
        elif conv in "xX" and isinstance(v, IntV):
            w = int(m.group(3) or 1) if m.group(2) or not m.group(3) else None
            if w is None:
                raise Unsupported("space padded hex")
            out += [Hex(v.e, w, conv == "X")]
        elif conv == "s":
            out += pieces(str_(E, v))
        elif conv == "d" and isinstance(v, IntV) and not m.group(3):
            out += pieces(str_(E, v))
        elif conv == "c" and isinstance(v, IntV):
            out.append(Ch(v.e))
        elif conv == "r":
            out += pieces(repr_(E, v))
        else:
            raise Unsupported(f"format %{conv} of {v!r}")
    out.append(fmt[pos:])
    if "%" in re.sub(r"%(%|(0?)(\d*)([sdrxXc]))", "", fmt):
        raise Unsupported("format directive")
    if i != len(args):
        raise PyRaise(ExcV(TypeError))
    return mkstr(out)


def repeat(E, a, b):
    if isinstance(b, int) and isinstance(a, str):
        return a * b
    if a == " ":
        # padding: an unspecified number of spaces
        r = StrV([Zs(E.fresh("spaces", STR))])
        from . import regex
        E.string_langs = getattr(E, "string_langs", {})
        E.string_langs[r.pieces[0].e.sexpr()] = regex.lang(" *")
        return r
    raise Unsupported("string repetition")


def ord_(E, v):
    if isinstance(v, str):
        if len(v) != 1:
            raise PyRaise(ExcV(TypeError))
        return ord(v)
    ps = unit(v.pieces)
    if len(ps) == 1 and isinstance(ps[0], Ch):
        return IntV(ps[0].code)
    if len(ps) == 1 and isinstance(ps[0], str):
        return ord(ps[0])
    if len(ps) == 1 and isinstance(ps[0], Zs):
        if not E.decide(z3.Length(ps[0].e) == 1):
            raise PyRaise(ExcV(TypeError))
        return IntV(z3.StrToCode(ps[0].e))
    raise Unsupported("ord")


def chr_(E, v):
    if isinstance(v, int):
        try:
            return chr(v)
        except (ValueError, OverflowError) as e:
            raise PyRaise(ExcV(type(e)))
    if isinstance(v, IntV):
        if not E.decide(z3.And(v.e >= 0, v.e <= MAXCHAR)):
            raise PyRaise(ExcV(ValueError))
        return StrV([Ch(v.e)])
    raise PyRaise(ExcV(TypeError))


def int_(E, a, k):
    v = a[0]
    base = a[1] if len(a) > 1 else k.get("base", 10)
    if isinstance(v, (IntV,)):
        return v
    if isinstance(v, BoolV):
        return IntV(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, StrV):
        ps = v.pieces
        if base == 16 and len(ps) == 1 and isinstance(ps[0], Hex):
            return IntV(ps[0].code)
        if base == 16 and all(isinstance(p, (str, Ch, Hex)) for p in ps):
            tot = z3.IntVal(0)
            for p in unit(ps):
                if isinstance(p, str):
                    if p not in HEXD:
                        raise PyRaise(ExcV(ValueError))
                    tot = tot * 16 + int(p, 16)
                elif isinstance(p, Hex):
                    if not fits(E, p):
                        raise Unsupported("hex field width")
                    tot = tot * 16 ** p.width + p.code
                else:
                    c = p.code
                    isd = z3.And(c >= 48, c <= 57)
                    isu = z3.And(c >= 65, c <= 70)
                    isl = z3.And(c >= 97, c <= 102)
                    if not E.decide(z3.Or(isd, isu, isl)):
                        # CPython also accepts other decimal digits, underscores and whitespace
                        raise Unsupported("int() of a non hex digit")
                    tot = tot * 16 + z3.If(isd, c - 48, z3.If(isu, c - 55, c - 87))
            return IntV(z3.simplify(tot))
        raise Unsupported("int() of a symbolic string")
    if isinstance(v, Val):
        raise Unsupported("int()")
    try:
        return int(v, base) if len(a) > 1 or "base" in k else int(v)
    except (ValueError, TypeError) as e:
        raise PyRaise(ExcV(type(e)))


# ---- bytes of one character (UTF-8) -----------------------------------------------------------

# Byte strings of unknown content are StrV with cls bytes, a byte being the character of the same number.

def as_bytes(v):
    return StrV([v.decode("latin-1")] if v else [], bytes) if isinstance(v, bytes) else v


def decode_bytes(E, s, a, k):
    codec = str(a[0] if a else k.get("encoding", "utf-8")).lower().replace("_", "-")
    errors = a[1] if len(a) > 1 else k.get("errors", "strict")
    h = getattr(E, "decode_hook", None)
    if h is None:
        raise Unsupported("decoding of unknown bytes")
    return h(E, s, codec, errors)


def chunks(E, s, sep):
    """s.split(sep) for a one-character separator that starts every letter of a homomorphic tail"""
    ps = list(s.pieces)
    if not (isinstance(sep, str) and len(sep) == 1):
        raise Unsupported("split")
    out, cur = [], []
    for x in unit(ps):
        if isinstance(x, str):
            if x == sep:
                out.append(One(mkstr(cur)))
                cur = []
            else:
                cur.append(x)
        elif isinstance(x, Hex):
            if sep in HEXD:
                raise Unsupported("split")
            cur.append(x)
        elif isinstance(x, Ch):
            if T.feasible(E.pcs(), x.code == ord(sep)):
                raise Unsupported("split")
            cur.append(x)
        elif isinstance(x, FM) and x is unit(ps)[-1]:
            out.append(One(mkstr(cur)))
            o = CharOrd(x.src)
            for g, ls in x.cases:
                u = unit(ls)
                if not u or u[0] != sep or any(y == sep or isinstance(y, (FM, Zs)) or isinstance(y, Ch) and
                                               T.feasible(E.pcs() + [g], y.code == ord(sep)) for y in u[1:]):
                    raise Unsupported("split")
                c = z3.FreshConst(INT, "c")
                b = [(x.var, c)]
                out.append(Seg([c], conj([src_range(x.src, c), subst(g, b)]), subv(StrV(u[1:]), b), o))
            return ListV(E, out)
        else:
            raise Unsupported("split")
    return ListV(E, out + [One(mkstr(cur))])


def bytes_of(E, v):
    """bytes(iterable of numbers)"""
    out = []

    def byte(x, g):
        if isinstance(x, int):
            if not 0 <= x <= 255:
                raise PyRaise(ExcV(ValueError))
            return Ch(z3.IntVal(x))
        if not isinstance(x, IntV):
            raise Unsupported("bytes of other than numbers")
        if T.feasible(E.pcs() + [g], z3.Not(z3.And(x.e >= 0, x.e <= 255))):
            raise Unsupported("bytes of numbers of any size")
        return Ch(x.e)
    for s in E.segments(v):
        if isinstance(s, One):
            out.append(One(StrV([byte(s.elem, TRUE)])))
        elif isinstance(s.ordered, CharOrd):
            out.append(Seg(s.bs, s.guard, StrV([byte(s.elem, s.guard)]), s.ordered))
        else:
            raise Unsupported("bytes of an unordered collection")
    return mkstr(pieces(as_bytes(join(E, "", ListV(E, out)))), bytes)


def hex_bytes(E, s, mark):
    """the bytes a text of (marked) pairs of hex digits stands for"""
    def block(ps):
        out, us = [], unit(ps)
        while us:
            if mark:
                if us[0] != mark:
                    raise Unsupported("text besides escapes")
                us = us[1:]
            if us and isinstance(us[0], Hex) and us[0].width == 2:
                out.append(Ch(us[0].code))
                us = us[1:]
            elif len(us) > 1 and all(isinstance(x, str) and x in HEXD for x in us[:2]):
                out.append(Ch(z3.IntVal(int(us[0] + us[1], 16))))
                us = us[2:]
            else:
                raise Unsupported("text that is not pairs of hex digits")
        return out
    out, run_ = [], []
    for p in pieces(s):
        if isinstance(p, FM):
            out += block(run_)
            run_ = []
            out.append(FM(p.src, p.var, [(g, block(ps)) for g, ps in p.cases]))
        else:
            run_.append(p)
    return mkstr(out + block(run_), bytes)


def utf8_char(E, code):
    """UTF-8 bytes of a code point (case split on its length)"""
    c = code
    if E.decide(c < 0x80):
        return [c]
    if E.decide(c < 0x800):
        return [0xC0 + c / 64, 0x80 + c % 64]
    if E.decide(c < 0x10000):
        if E.decide(z3.And(c >= 0xD800, c <= 0xDFFF)):
            raise PyRaise(ExcV(UnicodeEncodeError))
        return [0xE0 + c / 4096, 0x80 + (c / 64) % 64, 0x80 + c % 64]
    return [0xF0 + c / 262144, 0x80 + (c / 4096) % 64, 0x80 + (c / 64) % 64, 0x80 + c % 64]


def to_bytes(E, v, a, k):
    n = a[0] if a else k.get("length", 1)
    if n == 1:
        if not E.decide(z3.And(v.e >= 0, v.e <= 255)):
            raise PyRaise(ExcV(OverflowError))
        return StrV([Ch(v.e)], bytes)
    raise Unsupported("int.to_bytes")


# ---- methods ---------------------------------------------------------------------------------

def map_chars(E, s, pat, rep):
    """s.replace(pat, rep) for a single character pattern, piecewise"""
    out = []
    for p in pieces(s):
        if isinstance(p, str):
            out.append(p.replace(pat, "\0REP\0") if False else None)
            out.pop()
            parts = p.split(pat)
            for i, x in enumerate(parts):
                if i:
                    out += pieces(rep)
                if x:
                    out.append(x)
        elif isinstance(p, Ch):
            if E.decide(p.code == ord(pat)):
                out += pieces(rep)
            else:
                out.append(p)
        elif isinstance(p, Hex):
            if pat in HEXD:
                raise Unsupported("replacing a hex digit")
            out.append(p)
        elif isinstance(p, FM):
            cases = []
            for c, ps in p.cases:
                res = E.explore(lambda: (E.assume_dec(conj([src_range(p.src, p.var), c])), map_chars(E, StrV(ps), pat, rep))[1])
                for suffix, r, _ in res:
                    cases.append((conj([e for _, e in suffix]), pieces(r)))
            out.append(FM(p.src, p.var, cases))
        elif isinstance(p, Zs):
            var = z3.FreshConst(INT, "c")
            base = conj([var >= 0, var <= MAXCHAR])
            out.append(FM(p, var, [(conj([base, var == ord(pat)]), pieces(rep)),
                                   (conj([base, var != ord(pat)]), [Ch(var)])]))
        else:
            raise Unsupported("replace")
    return mkstr(out)


def translate_(E, s, t):
    """s.translate(table): every character replaced on its own"""
    def one(c):
        hit = [(c == o, pieces(r)) for o, r in t.items()]
        return hit + [(conj([c != o for o in t]), [Ch(c)])]
    out = []
    for p in pieces(s):
        if isinstance(p, str):
            out.append(p.translate(t))
        elif isinstance(p, Ch):
            for g, r in one(p.code):
                if E.decide(g):
                    out += r
                    break
            else:
                raise Infeasible()
        elif isinstance(p, Zs):
            var = z3.FreshConst(INT, "c")
            out.append(FM(p, var, [(conj([char_range(var), g]), r) for g, r in one(var)]))
        elif isinstance(p, FM):
            cases = []
            for c, ps in p.cases:
                for suffix, r, _ in E.explore(lambda: (E.assume_dec(conj([src_range(p.src, p.var), c])), translate_(E, StrV(ps), t))[1]):
                    cases.append((conj([e for _, e in suffix]), pieces(r)))
            out.append(FM(p.src, p.var, cases))
        else:
            raise Unsupported("translation of hex digits")
    return mkstr(out)


def method(E, s, name):
    def partition(E, a, k):
        sep = a[0]
        if not isinstance(sep, str) or not sep:
            raise Unsupported("partition separator")
        return partition_(E, s, sep)

    def startswith(E, a, k):
        p = a[0]
        if isinstance(p, (TupV, tuple)):
            rs = [starts(E, s, x) for x in (p.items if isinstance(p, TupV) else p)]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return BoolV(disj(rs)) if rs else False
        r = starts(E, s, p)
        return r if isinstance(r, bool) else BoolV(r)

    def endswith(E, a, k):
        p = a[0]
        ps = unit(pieces(s))
        if isinstance(p, str) and len(p) == 1 and ps and isinstance(ps[-1], (str, Ch)):
            return ps[-1] == p if isinstance(ps[-1], str) else BoolV(ps[-1].code == ord(p))
        return BoolV(z3.SuffixOf(E.zstr(p), s.z()))

    def replace(E, a, k):
        if isinstance(a[0], str) and len(a[0]) == 1 and isinstance(a[1], (str, StrV)) and len(a) == 2:
            return map_chars(E, s, a[0], a[1])
        if len(a) == 3 and isinstance(a[2], int) and a[2] == 1:
            return sv(z3.Replace(s.z(), E.zstr(a[0]), E.zstr(a[1])))
        # unspecified, except when there is no occurrence
        r = E.fresh("replaced", STR)
        z = s.z()
        E.assume(z3.Implies(z3.Not(z3.Contains(z, E.zstr(a[0]))), r == z))
        f = z3.Function("replace_all", STR, STR, STR, STR)
        E.assume(r == f(z, E.zstr(a[0]), E.zstr(a[1])))
        return sv(r)

    def enc(E, a, k):
        codec = (a[0] if a else k.get("encoding", "utf-8"))
        return EncV(s, str(codec).lower().replace("_", "-"))

    def rpartition(E, a, k):
        z = s.z()
        sep = E.zstr(a[0])
        if not E.decide(z3.Contains(z, sep)):
            return TupV(tuple, ["", "", StrV(s.pieces)])
        x, y = E.fresh("rp", STR), E.fresh("rp", STR)
        E.assume(z == z3.Concat(x, sep, y))
        E.assume(z3.Not(z3.Contains(y, sep)))
        return TupV(tuple, [sv(x), a[0], sv(y)])

    def split(E, a, k):
        mx = a[1] if len(a) > 1 else k.get("maxsplit", -1)
        if mx == 1 and a and isinstance(a[0], str):
            p = partition_(E, s, a[0])
            if p.items[1] == "":
                return ListV(E, [One(p.items[0])])
            return ListV(E, [One(p.items[0]), One(p.items[2])])
        if mx == -1 and a and isinstance(a[0], str):
            return chunks(E, s, a[0])
        raise Unsupported("split")

    def fn(f):
        return lambda E, a, k: sv(f(s.z()))

    def stripped(E, chars):
        """the pieces without the given characters at the ends, where that is settled; None: not"""
        ps = list(pieces(s))

        def end(ps, last):
            while ps:
                q = ps[-1] if last else ps[0]
                i = len(ps) - 1 if last else 0
                if isinstance(q, str):
                    r = q.rstrip(chars) if last else q.lstrip(chars)
                    if r:
                        ps[i] = r
                        return True
                    del ps[i]
                    continue
                if not isinstance(q, Zs):
                    return False
                at = z3.SuffixOf if last else z3.PrefixOf
                if T.feasible(E.pcs(), disj([at(z3.StringVal(c), q.e) for c in chars])):
                    return False
                return len(ps) == 1 or not T.feasible(E.pcs(), q.e == z3.StringVal(""))
            return True
        if name in ("strip", "rstrip") and not end(ps, True) or name in ("strip", "lstrip") and not end(ps, False):
            return None
        return ps

    def lowerf(E, a, k):
        if not k and len(a) == 1 and isinstance(a[0], str) and a[0] and name in ("strip", "lstrip", "rstrip"):
            r = stripped(E, a[0])
            if r is not None:
                return mkstr(r)
        if k or not all(x is None or isinstance(x, str) for x in a) or a and name in ("lower", "upper", "casefold"):
            raise Unsupported("str." + name)
        a = [x for x in a if x is not None]
        return sv(z3.Function("str_" + name + ("" if not a else repr(a)), STR, STR)(s.z()))

    def removeprefix(E, a, k):
        if E.decide(starts(E, s, a[0])):
            from .core import SliceV
            n = length(E, as_str(E, a[0]))
            return getitem(E, s, SliceV(n, None, None))
        return StrV(s.pieces)

    def find(E, a, k):
        if len(a) == 1:
            return IntV(z3.IndexOf(s.z(), E.zstr(a[0]), 0))
        raise Unsupported("find")

    def index(E, a, k):
        i = z3.IndexOf(s.z(), E.zstr(a[0]), 0)
        if E.decide(i < 0):
            raise PyRaise(ExcV(ValueError))
        return IntV(i)

    def format_(E, a, k):
        if any(not isinstance(p, str) for p in s.pieces):
            raise Unsupported("symbolic format string")
        import string
        out = []
        n = 0
        for text, field, spec, conv in string.Formatter().parse("".join(s.pieces)):
            out.append(text)
            if field is None:
                continue
            if conv or "{" in spec or "." in field or "[" in field:
                raise Unsupported("format field")
            if field == "":
                v = a[n]
                n += 1
            else:
                v = a[int(field)] if field.isdigit() else k[field]
            out.append(format_spec(E, v, spec))
        return concat(E, out)

    def translate(E, a, k):
        t = a[0]
        if isinstance(t, DictV):
            raise Unsupported("computed translation table")
        if not isinstance(t, dict):
            raise Unsupported("translation table")
        return translate_(E, s, {o: (chr(r) if isinstance(r, int) else r or "") for o, r in t.items()})

    if s.cls is bytes:
        if name == "decode":
            return BuiltinV("bytes.decode", lambda E, a, k: decode_bytes(E, s, a, k))
        raise Unsupported(f"bytes.{name}")
    tbl = {"format": format_, "translate": translate, "partition": partition, "startswith": startswith, "endswith": endswith, "replace": replace,
           "join": lambda E, a, k: join(E, mkstr(s.pieces), a[0]), "encode": enc, "rpartition": rpartition,
           "split": split, "lower": lowerf, "upper": lowerf, "strip": lowerf, "casefold": lowerf, "removeprefix": removeprefix,
           "lstrip": lowerf, "rstrip": lowerf,
           "find": find, "index": index, "__str__": lambda E, a, k: str_(E, s),
           "__len__": lambda E, a, k: length(E, s),
           "__eq__": lambda E, a, k: _b(E.equal(StrV(s.pieces), a[0])),
           "__contains__": lambda E, a, k: _b(contains(E, s, a[0])),
           "__add__": lambda E, a, k: concat(E, [s, a[0]])}
    if name not in tbl:
        raise Unsupported(f"str.{name}")
    return BuiltinV("str." + name, tbl[name])


def _b(x):
    return x if isinstance(x, bool) else BoolV(x)


def quote(E, s, safe):
    """urllib.parse.quote: every character on its own; everything but letters, digits, _.-~ and the safe ASCII characters
    becomes the escapes of its UTF-8 bytes"""
    from urllib.parse import quote as q
    from . import regex
    keep = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~") | {c for c in safe if ord(c) < 128}
    cs = regex.norm(tuple((ord(c), ord(c)) for c in keep))
    out = []
    for p in pieces(s):
        if isinstance(p, str):
            out.append(q(p, safe=safe))
        elif isinstance(p, Hex):
            out.append(p)
        elif isinstance(p, Ch):
            if E.decide(regex.cond_in(cs, p.code)):
                out.append(p)
            else:
                for b in utf8_char(E, p.code):
                    out += ["%", Hex(b, 2, True)]
        elif isinstance(p, (FM, Zs)):
            fm = p
            if isinstance(p, Zs):
                var = z3.FreshConst(INT, "c")
                fm = FM(p, var, [(char_range(var), [Ch(var)])])
            cases = []
            for c, ps in fm.cases:
                for suffix, r, _ in E.explore(lambda: (E.assume_dec(conj([src_range(fm.src, fm.var), c])), quote(E, StrV(ps), safe))[1]):
                    cases.append((conj([e for _, e in suffix]), pieces(r)))
            out.append(FM(fm.src, fm.var, cases))
        else:
            raise Unsupported("quote")
    return mkstr(out)


class EncV(Val):
    """the encoding of a string"""
    cls = bytes

    def __init__(self, s, codec):
        self.s, self.codec = s, codec

    def __repr__(self):
        return f"Enc({self.s},{self.codec})"

    def pymethod(self, E, name):
        if name == "decode":
            def dec(E, a, k):
                c = str(a[0] if a else "utf-8").lower()
                if c == self.codec:
                    return self.s
                raise Unsupported("decode with another codec")
            return BuiltinV("bytes.decode", dec)
        raise Unsupported(f"bytes.{name}")


def starts(E, s, p):
    p = as_str(E, p)
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    ps, pp = unit(pieces(s)), unit(pieces(p))
    cs = []
    i = 0
    while i < len(pp) and i < len(ps) and isinstance(pp[i], (str, Ch)) and isinstance(ps[i], (str, Ch)):
        x, y = ps[i], pp[i]
        if isinstance(x, str) and isinstance(y, str):
            if x != y:
                return False
        else:
            cx = z3.IntVal(ord(x)) if isinstance(x, str) else x.code
            cy = z3.IntVal(ord(y)) if isinstance(y, str) else y.code
            cs.append(cx == cy)
        i += 1
    if i == len(pp):
        return conj(cs) if cs else True
    if i == len(ps):
        if any(isinstance(x, (str, Ch, Hex)) for x in pp[i:]):
            return False
    return conj(cs + [z3.PrefixOf(StrV(pp[i:]).z(), StrV(ps[i:]).z())])


def contains_char(E, ps, ch):
    """condition: a block has this character"""
    out = []
    for p in ps:
        if isinstance(p, str):
            if ch in p:
                return TRUE
        elif isinstance(p, Ch):
            out.append(p.code == ord(ch))
        elif isinstance(p, Hex):
            if ch in HEXD:
                return TRUE
        else:
            return TRUE
    return disj(out) if out else FALSE


def partition_(E, s, sep):
    ps = pieces(s)
    if isinstance(s, str):
        return TupV(tuple, s.partition(sep))
    if len(sep) == 1:
        # leading pieces known not to contain the separator can be skipped
        for i, p in enumerate(ps):
            if isinstance(p, str):
                j = p.find(sep)
                if j >= 0:
                    return TupV(tuple, [mkstr(ps[:i] + [p[:j]]), sep, mkstr([p[j + 1:]] + ps[i + 1:])])
            elif isinstance(p, Ch):
                if E.decide(p.code == ord(sep)):
                    return TupV(tuple, [mkstr(ps[:i]), sep, mkstr(ps[i + 1:])])
            elif isinstance(p, Hex):
                if sep in HEXD:
                    raise Unsupported("partition at a hex digit")
            elif isinstance(p, Zs):
                if not E.decide(z3.Contains(p.e, zstr(sep))):
                    continue
                x, y = E.fresh("pa", STR), E.fresh("pa", STR)
                E.assume(p.e == z3.Concat(x, zstr(sep), y))
                E.assume(z3.Not(z3.Contains(x, zstr(sep))))
                return TupV(tuple, [mkstr(ps[:i] + [Zs(x)]), sep, mkstr([Zs(y)] + ps[i + 1:])])
            elif isinstance(p, FM):
                # not inside, or the text splits there
                inside = any(T.feasible(E.pcs(), conj([src_range(p.src, p.var), c, contains_char(E, q, sep)])) for c, q in p.cases)
                if inside:
                    raise Unsupported("partition of a homomorphic string")
            else:
                raise Unsupported("partition")
        return TupV(tuple, [mkstr(ps), "", ""])
    raise Unsupported("partition separator")


def re_method(E, pat, name):
    from . import regex
    return regex.re_method(E, pat, name)

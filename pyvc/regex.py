"""Regular expressions: languages with derivatives (exact decision of equivalence and inclusion over all strings), symbolic
matching of strings of known shape, and re.sub over them."""
import re
import z3
try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre
from . import terms as T
from .terms import conj, disj, subst, INT, STR
from .values import *
from .values import TRUE, FALSE

MAX = 0x10FFFF
ZMAX = 0x2FFFF       # largest character of the SMT theory of strings

# ---- character sets: sorted tuples of (lo, hi) -------------------------------------------------------


def norm(iv):
    out = []
    for a, b in sorted(iv):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def cunion(x, y):
    return norm(x + y)


def cneg(x):
    out, p = [], 0
    for a, b in x:
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAX:
        out.append((p, MAX))
    return tuple(out)


def cinter(x, y):
    return cneg(cunion(cneg(x), cneg(y)))


ALL = ((0, MAX),)


def cset(s):
    return norm(tuple((ord(c), ord(c)) for c in s))


def has(cs, o):
    return any(a <= o <= b for a, b in cs)


CATS = {sre.CATEGORY_DIGIT: ((48, 57),), sre.CATEGORY_SPACE: cset(" \t\n\r\f\v"), sre.CATEGORY_WORD: norm(((48, 57), (65, 90), (95, 95), (97, 122)))}

# ---- languages: ("null",) ("eps",) ("cls", cs) ("cat", a, b) ("alt", frozenset) ("star", a) -----------

NULL, EPS = ("null",), ("eps",)


def cls(cs):
    return ("cls", cs) if cs else NULL


def cat(a, b):
    if a == NULL or b == NULL:
        return NULL
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == "cat":
        return ("cat", a[1], cat(a[2], b))
    return ("cat", a, b)


def alt(*xs):
    fs, cs = set(), ()
    todo = list(xs)
    while todo:
        x = todo.pop()
        if x[0] == "alt":
            todo += list(x[1])
        elif x[0] == "cls":
            cs = cunion(cs, x[1])
        elif x != NULL:
            fs.add(x)
    if cs:
        fs.add(("cls", cs))
    if not fs:
        return NULL
    if len(fs) == 1:
        return next(iter(fs))
    return ("alt", frozenset(fs))


def star(a):
    if a in (NULL, EPS):
        return EPS
    if a[0] == "star":
        return a
    if a[0] == "alt" and EPS in a[1]:
        return star(alt(*[x for x in a[1] if x != EPS]))
    return ("star", a)


_null = {}


def nullable(r):
    k = r[0]
    if k in ("null", "cls"):
        return False
    if k in ("eps", "star"):
        return True
    if r in _null:
        return _null[r]
    v = nullable(r[1]) and nullable(r[2]) if k == "cat" else any(nullable(x) for x in r[1])
    _null[r] = v
    return v


_der = {}


def deriv(r, o):
    k = r[0]
    if k in ("null", "eps"):
        return NULL
    if k == "cls":
        return EPS if has(r[1], o) else NULL
    key = (r, o)
    if key in _der:
        return _der[key]
    if k == "cat":
        v = cat(deriv(r[1], o), r[2])
        if nullable(r[1]):
            v = alt(v, deriv(r[2], o))
    elif k == "alt":
        v = alt(*[deriv(x, o) for x in r[1]])
    else:
        v = cat(deriv(r[1], o), r)
    _der[key] = v
    return v


def bounds(r, out):
    if r[0] == "cls":
        for a, b in r[1]:
            out.add(a)
            out.add(b + 1)
    elif r[0] == "cat":
        bounds(r[1], out)
        bounds(r[2], out)
    elif r[0] == "alt":
        for x in r[1]:
            bounds(x, out)
    elif r[0] == "star":
        bounds(r[1], out)


def atoms(*rs):
    """intervals of characters that no class of the expressions tells apart"""
    pts = {0, MAX + 1}
    for r in rs:
        bounds(r, pts)
    ps = sorted(p for p in pts if p <= MAX + 1)
    return [(a, b - 1) for a, b in zip(ps, ps[1:])]


def groups(r):
    """[(character set, derivative)] partitioning the characters"""
    d = {}
    for a, b in atoms(r):
        d.setdefault(deriv(r, a), []).append((a, b))
    return [(norm(tuple(v)), k) for k, v in d.items()]


def difference(a, b, limit=20000):
    """None if the languages are equal, else (string, in a?, in b?)"""
    ats = atoms(a, b)
    seen = {(a, b)}
    todo = [(a, b, "")]
    while todo:
        x, y, w = todo.pop(0)
        if nullable(x) != nullable(y):
            return (w, nullable(x), nullable(y))
        for lo, hi in ats:
            p = (deriv(x, lo), deriv(y, lo))
            if p not in seen:
                seen.add(p)
                if len(seen) > limit:
                    raise Unsupported("regular expressions too large")
                c = lo if not 0xD800 <= lo <= 0xDFFF or hi <= 0xDFFF else 0xE000
                todo.append((p[0], p[1], w + chr(c)))
    return None


def included(a, b):
    """None if every string of a is in b, else a string of a outside b"""
    d = difference(alt(a, b), b)
    return None if d is None else d[0]


# ---- from Python's own parser of regular expressions -------------------------------------------------------

def literal_class(o, icase):
    if not icase:
        return ((o, o),)
    c = chr(o)
    return cset(c.lower() + c.upper()) if len(c.lower()) == 1 and len(c.upper()) == 1 else ((o, o),)


def in_class(items, icase):
    cs, neg = (), False
    for op, av in items:
        if op is sre.NEGATE:
            neg = True
        elif op is sre.LITERAL:
            cs = cunion(cs, literal_class(av, icase))
        elif op is sre.RANGE:
            cs = cunion(cs, (tuple(av),))
            if icase:
                for o in range(av[0], min(av[1], 0x24F) + 1):
                    cs = cunion(cs, literal_class(o, True))
        elif op is sre.CATEGORY:
            if av in CATS:
                cs = cunion(cs, CATS[av])
            else:
                raise Unsupported("character category")
        else:
            raise Unsupported(f"regex class item {op}")
    return cneg(cs) if neg else cs


def lang(pattern, flags=0):
    """the language a pattern matches in full"""
    if isinstance(pattern, re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags
    p = sre_parse.parse(pattern, flags & ~re.UNICODE)
    return seq(list(p), bool(p.state.flags & re.IGNORECASE), bool(p.state.flags & re.DOTALL))


def seq(items, ic, da):
    out = []
    for idx, (op, av) in enumerate(items):
        if op is sre.AT:
            # anchors at the very ends say nothing about a full match
            if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING) and idx == 0 or av is sre.AT_END_STRING and idx == len(items) - 1:
                continue
            if av is sre.AT_END and idx == len(items) - 1:
                continue
        if op is sre.ASSERT_NOT and av[0] == 1:
            ahead = [node(o, v, ic, da) for o, v in av[1]]
            if not all(x[0] == "cls" for x in ahead):
                raise Unsupported("lookahead")
            out.append(("not ahead", [x[1] for x in ahead]))
            continue
        out.append(node(op, av, ic, da))
    r = EPS
    for x in reversed(out):
        r = without_prefix(r, x[1]) if x[0] == "not ahead" else cat(x, r)
    return r


def without_prefix(r, cs):
    """the strings of r that do not start with characters of the classes cs"""
    if not cs:
        return NULL
    if nullable(r):
        raise Unsupported("lookahead beyond the group it stands in")
    out = []
    for c, d in groups(r):
        keep, bad = cinter(c, cneg(cs[0])), cinter(c, cs[0])
        if keep:
            out.append(cat(("cls", keep), d))
        if bad:
            out.append(cat(("cls", bad), without_prefix(d, cs[1:])))
    return alt(*out) if out else NULL


def node(op, av, ic, da):
    if op is sre.LITERAL:
        return cls(literal_class(av, ic))
    if op is sre.NOT_LITERAL:
        return cls(cneg(literal_class(av, ic)))
    if op is sre.ANY:
        return cls(ALL if da else cneg(((10, 10),)))
    if op is sre.IN:
        return cls(in_class(av, ic))
    if op is sre.BRANCH:
        return alt(*[seq(list(x), ic, da) for x in av[1]])
    if op is sre.SUBPATTERN:
        g, add, dele, p = av
        ic2 = (ic or bool(add & re.IGNORECASE)) and not dele & re.IGNORECASE
        return seq(list(p), ic2, da)
    if op in (sre.MAX_REPEAT, sre.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT" and False:
        lo, hi, p = av
        x = seq(list(p), ic, da)
        r = star(x) if hi is sre.MAXREPEAT else EPS
        if hi is not sre.MAXREPEAT:
            if hi > 64:
                raise Unsupported("large repetition")
            for _ in range(hi - lo):
                r = alt(EPS, cat(x, r))
        for _ in range(lo):
            r = cat(x, r)
        return r
    raise Unsupported(f"regex operator {op}")


# ---- as an SMT regular expression --------------------------------------------------------------------------

_zre = {}


def zch(o):
    return zstr(chr(o))


def to_z3(r):
    if r in _zre:
        return _zre[r]
    k = r[0]
    S = z3.ReSort(STR)
    if k == "null":
        v = z3.Empty(S)
    elif k == "eps":
        v = z3.Re(z3.StringVal(""))
    elif k == "cls":
        ps = [z3.Range(zch(a), zch(min(b, ZMAX))) if a != b else z3.Re(zch(a)) for a, b in r[1] if a <= ZMAX]
        v = ps[0] if len(ps) == 1 else z3.Union(*ps) if ps else z3.Empty(S)
    elif k == "cat":
        v = z3.Concat(to_z3(r[1]), to_z3(r[2]))
    elif k == "alt":
        v = z3.Union(*[to_z3(x) for x in sorted(r[1], key=repr)])
    else:
        v = z3.Star(to_z3(r[1]))
    _zre[r] = v
    return v


def cond_in(cs, code):
    return disj([conj([code >= a, code <= b]) if a != b else code == a for a, b in cs]) if cs else FALSE


# ---- strings of known shape against a language ---------------------------------------------------------------

HEXU, HEXL, HEXA = norm(((48, 57), (65, 70))), norm(((48, 57), (97, 102))), norm(((48, 57), (65, 70), (97, 102)))


def hexset(h):
    return HEXA if h.upper is None else HEXU if h.upper else HEXL



def step(E, r, p):
    """list of states after reading one piece from state r (every feasible case)"""
    if isinstance(p, str):
        for c in p:
            r = deriv(r, ord(c))
        return [r]
    if isinstance(p, Ch):
        out = []
        for cs, d in groups(r):
            if T.feasible(E.pcs(), cond_in(cs, p.code)):
                out.append(d)
        return list(dict.fromkeys(out))
    if isinstance(p, Hex):
        from . import strings
        digits = hexset(p)
        if p.width == 1 and not strings.fits(E, p):
            seen, todo = [], [r]
            while todo:
                s = todo.pop()
                for cs, d in groups(s):
                    if cinter(cs, digits) and d not in seen:
                        seen.append(d)
                        todo.append(d)
            return seen
        if not strings.fits(E, p):
            raise Unsupported("hex field of unknown width")
        sts = [(r, ())]
        for k in range(p.width):
            w = 16 ** (p.width - 1 - k)
            new = []
            for s, cond in sts:
                for cs, d in groups(s):
                    ok = cinter(cs, digits)
                    if not ok:
                        continue
                    if p.width <= 2 and ok != digits:
                        # which numbers have such a digit
                        vals = {int(x, 16) for x in strings.HEXD if has(ok, ord(x))}
                        c2 = cond + (disj([(p.code / w) % 16 == n for n in sorted(vals)]),)
                        if not T.feasible(E.pcs(), conj(c2)):
                            continue
                        new.append((d, c2))
                    else:
                        new.append((d, cond))
            sts = list(dict.fromkeys(new)) if p.width > 2 else new
        return list(dict.fromkeys(s for s, _ in sts))
    if isinstance(p, FM):
        # a number has at least one digit; any other string may be empty
        seen, todo = ([] if isinstance(p.src, Hex) else [r]), [r]
        while todo:
            s = todo.pop()
            for c, ps in p.cases:
                for e in ends_case(E, s, conj([strings_range(p), c]), ps):
                    if e not in seen:
                        seen.append(e)
                        todo.append(e)
                        if len(seen) > 60:
                            raise Unsupported("too many states")
        return seen
    if isinstance(p, Zs):
        h = getattr(E, "string_langs", {}).get(p.e.sexpr())
        if h is None:
            raise Unsupported("string of unknown shape against a grammar terminal")
        seen, todo = {(h, r)}, [(h, r)]
        out = []
        while todo:
            a, s = todo.pop()
            if nullable(a) and s not in out:
                out.append(s)
            for lo, hi in atoms(a, s):
                q = (deriv(a, lo), deriv(s, lo))
                if q[0] != NULL and q not in seen:
                    seen.add(q)
                    todo.append(q)
        return out
    raise Unsupported(f"string piece {p!r} against a language")


def strings_range(p):
    from . import strings
    return strings.src_range(p.src, p.var)


def ends_case(E, s, c, ps):
    out = []

    def go():
        E.assume_dec(c)
        return run(E, s, ps)
    for _, r, _ in E.explore(go):
        out += r
    return list(dict.fromkeys(out))


def run(E, r, ps):
    sts = [r]
    for p in ps:
        new = []
        for s in sts:
            new += step(E, s, p)
        sts = list(dict.fromkeys(new))
    return sts


def oblige_in(E, name, v, r):
    """obligation: the string is in the language"""
    from . import strings
    ends = run(E, r, strings.pieces(strings.as_str(E, v)))
    E.oblige(name, z3.BoolVal(all(nullable(s) for s in ends)))


# ---- symbolic matching (leftmost, first alternative) over characters of known shape --------------------------------

class HD:
    """one digit of a hex field"""

    def __init__(self, h, i):
        self.h, self.i = h, i


OPEN = object()      # an unknown continuation


def units(E, ps):
    from . import strings
    out = []
    for p in ps:
        if isinstance(p, str):
            out += list(p)
        elif isinstance(p, Ch):
            out.append(p)
        elif isinstance(p, Hex):
            if not strings.fits(E, p):
                raise Unsupported("hex field of unknown width")
            out += [HD(p, i) for i in range(p.width)]
        else:
            raise Unsupported(f"matching against {p!r}")
    return out


def regroup(us):
    out = []
    i = 0
    while i < len(us):
        u = us[i]
        if isinstance(u, HD):
            w = u.h.width
            if u.i != 0 or len(us) < i + w or any(not isinstance(x, HD) or x.h is not u.h for x in us[i:i + w]):
                raise Unsupported("part of a hex field")
            out.append(u.h)
            i += w
            continue
        out.append(u)
        i += 1
    return out


def test(E, u, cs):
    if u is OPEN:
        raise Unsupported("the match depends on what follows")
    if isinstance(u, str):
        return has(cs, ord(u))
    if isinstance(u, Ch):
        return E.decide(cond_in(cs, u.code))
    d = hexset(u.h)
    i = cinter(d, cs)
    if not i:
        return False
    if i == d:
        return True
    raise Unsupported("a hex digit against part of the digits")


def match_here(E, items, us, i, ic, da, k):
    """match the pattern items at position i, then continue with k(end); returns k's result or None"""
    if not items:
        return k(i)
    (op, av), rest = items[0], items[1:]
    nxt = lambda j: match_here(E, rest, us, j, ic, da, k)
    if op in (sre.LITERAL, sre.NOT_LITERAL, sre.ANY, sre.IN):
        cs = node(op, av, ic, da)
        cs = cs[1] if cs[0] == "cls" else ()
        if i >= len(us) or not test(E, us[i], cs):
            return None
        return nxt(i + 1)
    if op is sre.BRANCH:
        for x in av[1]:
            r = match_here(E, list(x), us, i, ic, da, nxt)
            if r is not None:
                return r
        return None
    if op is sre.SUBPATTERN:
        g, add, dele, p = av
        return match_here(E, list(p), us, i, (ic or bool(add & re.IGNORECASE)) and not dele & re.IGNORECASE, da, nxt)
    if op is sre.MAX_REPEAT:
        lo, hi, p = av

        def rep(n, j):
            if hi is sre.MAXREPEAT or n < hi:
                r = match_here(E, list(p), us, j, ic, da, lambda e: rep(n + 1, e) if e > j else None)
                if r is not None:
                    return r
            return nxt(j) if n >= lo else None
        return rep(0, i)
    if op in (sre.ASSERT, sre.ASSERT_NOT) and av[0] == 1:
        r = match_here(E, list(av[1]), us, i, ic, da, lambda e: e)
        ok = (r is not None) == (op is sre.ASSERT)
        return nxt(i) if ok else None
    if op is sre.AT:
        if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
            raise Unsupported("anchored substitution")
        if av is sre.AT_END_STRING:
            if i < len(us) and us[i] is OPEN:
                raise Unsupported("the match depends on what follows")
            return nxt(i) if i == len(us) else None
    raise Unsupported(f"regex operator {op}")


class MatchV(Val):
    cls = re.Match
    always_true = True

    def __init__(self, text):
        self.text = text

    def py_getitem(self, E, k):
        return self.group(E, [k], {})

    def group(self, E, a, k):
        if a and a[0] != 0 or self.text is None:
            raise Unsupported("match group")
        return self.text

    def pymethod(self, E, name):
        if name == "group":
            return BuiltinV("match.group", self.group)
        raise Unsupported(f"match.{name}")


def parsed(pat, flags=0):
    if isinstance(pat, re.Pattern):
        pat, flags = pat.pattern, pat.flags
    p = sre_parse.parse(pat, flags & ~re.UNICODE)
    if p.state.groups > 1:
        raise Unsupported("groups in a substituted pattern")
    return list(p), bool(p.state.flags & re.IGNORECASE), bool(p.state.flags & re.DOTALL)


def sub_units(E, pat, repl, us):
    from . import strings
    items, ic, da = parsed(pat)
    out = []
    i = 0
    while i < len(us) and us[i] is not OPEN:
        e = match_here(E, items, us, i, ic, da, lambda j: j)
        if e is not None and e == i:
            raise Unsupported("empty match in a substitution")
        if e is None:
            out.append(us[i])
            i += 1
            continue
        m = MatchV(strings.mkstr(regroup(us[i:e])))
        if isinstance(repl, (str, StrV)):
            if isinstance(repl, StrV) or "\\" in repl:
                raise Unsupported("substitution template")
            r = repl
        else:
            r = E.call(repl, [m], {})
        out.append(("p", strings.pieces(strings.as_str(E, r))))
        i = e
    # pieces
    ps, run_ = [], []
    for u in out:
        if isinstance(u, tuple):
            ps += regroup(run_) + u[1]
            run_ = []
        else:
            run_.append(u)
    return ps + regroup(run_)


def sub(E, pat, repl, s):
    """re.sub over a string of known shape. Text between the parts whose number is unknown must not take part in a match that
    crosses into them."""
    from . import strings
    h = getattr(E, "sub_hook", None)
    if h is not None:
        r = h(E, pat, repl, s)
        if r is not None:
            return r
    ps = strings.pieces(strings.as_str(E, s))
    if len(ps) == 1 and isinstance(ps[0], Zs):
        # any string: its characters one by one, if no match is longer than one character
        r = lang(pat)
        if all(nullable(d) and deriv_empty(d) for _, d in groups(r) if d != NULL) and not nullable(r):
            from . import strings as S
            var = z3.FreshConst(INT, "c")
            base = conj([var >= 0, var <= MAX])
            ps = [FM(ps[0], var, [(base, [Ch(var)])])]
    out = []
    for i, p in enumerate(ps):
        last = i == len(ps) - 1
        if isinstance(p, FM):
            cases = []
            for c, cps in p.cases:
                res = E.explore(lambda: (E.assume_dec(conj([strings_range(p), c])), sub_units(E, pat, repl, units(E, cps) + [OPEN]))[1])
                for suffix, r, _ in res:
                    cases.append((conj([e for k, e in suffix if k == "dec"]), r))
            out.append(FM(p.src, p.var, cases))
        elif isinstance(p, Zs):
            raise Unsupported("substitution in an arbitrary string")
        else:
            j = i
            if i and not isinstance(ps[i - 1], (FM, Zs)):
                continue
            blk = []
            while j < len(ps) and not isinstance(ps[j], (FM, Zs)):
                blk.append(ps[j])
                j += 1
            out += sub_units(E, pat, repl, units(E, blk) + ([OPEN] if j < len(ps) else []))
    return strings.mkstr(out)


def deriv_empty(d):
    return all(x == NULL for _, x in groups(d))


def every_char(E, ps, cs):
    """condition: every character of a string of known shape is in the class. For a homomorphic string over an arbitrary
    sequence, a letter counts if it occurs in the sequence."""
    from . import strings
    out = []
    for p in ps:
        if isinstance(p, str):
            if not all(has(cs, ord(c)) for c in p):
                return FALSE
        elif isinstance(p, Ch):
            out.append(cond_in(cs, p.code))
        elif isinstance(p, Hex):
            if not included_set(hexset(p), cs):
                raise Unsupported("a hex digit against part of the digits")
        elif isinstance(p, Zs):
            out.append(z3.InRe(p.e, to_z3(star(("cls", cs)))))
        elif isinstance(p, FM):
            v = z3.FreshConst(z3.IntSort(), "u")
            occ = occurs(p.src, v)
            body = [z3.Implies(conj([strings.src_range(p.src, v), occ, subst(c, [(p.var, v)])]),
                               every_char(E, [q if isinstance(q, str) else q.sub([(p.var, v)]) for q in b], cs)) for c, b in p.cases]
            out.append(T.forall([v], conj(body), patterns=[occ] if isinstance(p.src, Units) else ()))
        else:
            raise Unsupported("characters of " + repr(p))
    return conj(out) if out else TRUE


def included_set(a, b):
    return not cinter(a, cneg(b))


def occurs(src, v):
    if isinstance(src, Units):
        return src.occ(v)
    if isinstance(src, Zs):
        return z3.Contains(src.e, z3.StrFromCode(v))
    raise Unsupported("occurrence")


def star_class(r):
    """the class, if the language is that of all strings over a class of characters"""
    if r and r[0] == "star" and r[1][0] == "cls":
        return r[1][1]
    full = [cs for cs, d in groups(r) if d != NULL and d == r]
    if len(full) == 1 and nullable(r) and all(d in (NULL, r) for _, d in groups(r)):
        return full[0]
    return None


def in_language(E, r, ps):
    """condition: the string is in the language"""
    from . import strings
    if all(isinstance(p, (str, Zs)) for p in ps):
        return z3.InRe(StrV(ps).z(), to_z3(r))
    cs = star_class(r)
    if cs is not None:
        return every_char(E, ps, cs)
    # complement of a star: some character outside a class
    for c in {c for c, d in groups(r) if nullable(d)}:
        if difference(r, cat(star(("cls", cneg(()))), cat(("cls", c), star(("cls", cneg(())))))) is None:
            return z3.Not(every_char(E, ps, cneg(c)))
    ends = run(E, r, ps)
    v = {nullable(e) for e in ends}
    if len(v) == 1:
        return z3.BoolVal(v.pop())
    return disj([c for s, c in cond_run(E, r, ps) if nullable(s)])


def cond_run(E, r, ps):
    """(state, condition under which the string leads there), for every state but the dead one; homomorphic strings must
    stay in one state"""
    from . import strings
    sts = [(r, TRUE)]
    for p in ps:
        new = []
        for s, c in sts:
            if isinstance(p, str):
                for x in p:
                    s = deriv(s, ord(x))
                new.append((s, c))
            elif isinstance(p, Ch):
                for cs, d in groups(s):
                    g = conj([c, cond_in(cs, p.code)])
                    if d != NULL and T.feasible(E.pcs(), g):
                        new.append((d, g))
            elif isinstance(p, FM):
                v = z3.FreshConst(z3.IntSort(), "u")
                occ, body = occurs(p.src, v), []
                for g, b in p.cases:
                    g = conj([strings.src_range(p.src, v), subst(g, [(p.var, v)])])
                    if not T.feasible(E.pcs(), g):
                        continue
                    ends = cond_run(strings.Under(E, g), s, [q if isinstance(q, str) else q.sub([(p.var, v)]) for q in b])
                    if any(e != s for e, _ in ends):
                        raise Unsupported("match depends on the characters")
                    body.append(z3.Implies(conj([occ, g]), disj([x for _, x in ends]) if ends else FALSE))
                new.append((s, conj([c, T.forall([v], conj(body), patterns=[occ] if isinstance(p.src, Units) else ())])))
            else:
                raise Unsupported("match depends on the characters")
        sts = [(s, c) for s, c in new if s != NULL]
    return sts


def fullmatch(E, pat, s):
    from . import strings
    s = strings.as_str(E, s)
    if isinstance(s, str):
        return re.compile(pat).fullmatch(s) is not None
    return in_language(E, lang(pat), s.pieces)


ANY = star(("cls", ((0, MAX),)))


def match_lang(pat, search):
    """language of the strings in which re.match / re.search finds the pattern"""
    p, flags = (pat.pattern, pat.flags) if isinstance(pat, re.Pattern) else (pat, 0)
    items = list(sre_parse.parse(p, flags & ~re.UNICODE))
    begin = end = False
    if items and items[0][0] is sre.AT and items[0][1] in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
        begin = True
    nl = False
    if items and items[-1][0] is sre.AT and items[-1][1] in (sre.AT_END, sre.AT_END_STRING):
        end, nl = True, items[-1][1] is sre.AT_END
    if flags & re.MULTILINE or any(op is sre.AT for op, _ in items[1:-1]):
        raise Unsupported("anchors inside a pattern")
    core = items[1 if begin else 0:len(items) - 1 if end else len(items)]
    r = seq(core, bool(flags & re.IGNORECASE), bool(flags & re.DOTALL))
    if search and not begin:
        r = cat(ANY, r)
    if end:
        return alt(r, cat(r, ("cls", ((10, 10),)))) if nl else r
    return cat(r, ANY)


def found(E, pat, s, search):
    from . import strings
    s = strings.as_str(E, s)
    if isinstance(s, str):
        return (re.search if search else re.match)(pat, s) is not None
    return in_language(E, match_lang(pat, search), s.pieces)


class MaybeMatch(Val):
    """the result of a match whose text is the whole string"""
    cls = re.Match
    always_true = True


def re_method(E, pat, name):
    def m_sub(E, a, k):
        if len(a) != 2 or k:
            raise Unsupported("sub with options")
        return sub(E, pat, a[0], a[1])

    def m_full(E, a, k):
        if len(a) != 1 or k:
            raise Unsupported("match with options")
        c = fullmatch(E, pat, a[0])
        if not isinstance(c, bool):
            c = E.decide(c)
        return MatchV(a[0]) if c else None
    def finder(search):
        def f(E, a, k):
            if len(a) != 1 or k:
                raise Unsupported("match with options")
            c = found(E, pat, a[0], search)
            if not isinstance(c, bool):
                c = E.decide(c)
            return MatchV(None) if c else None
        return f
    tbl = {"sub": m_sub, "fullmatch": m_full, "match": finder(False), "search": finder(True)}
    if name not in tbl:
        raise Unsupported(f"re.Pattern.{name}")
    return BuiltinV("re." + name, tbl[name])

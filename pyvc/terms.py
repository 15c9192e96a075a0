"""SMT sorts, term helpers and the solver front end."""
import hashlib
import os
import subprocess
import tempfile
import time

import z3
from z3 import (And, BoolVal, Const, DeclareSort, Exists, ForAll, Function, Implies, Not, Or,
                StringSort, BoolSort, IntSort)

z3.set_param("smt.random_seed", 1)

U = DeclareSort("U")
NONE = Const("NONE", U)


def _dt(name, fields):
    d = z3.Datatype(name)
    d.declare("mk" + name, *[(name + "_" + f, U) for f in fields])
    return d.create()


T3 = _dt("T3", "spo")
Q4 = _dt("Q4", "spog")
P2 = _dt("P2", "ab")
STR = StringSort()
INT = IntSort()
BOOL = BoolSort()

CTOR = {T3.name(): (T3, 3), Q4.name(): (Q4, 4), P2.name(): (P2, 2)}


def mk(sort, *args):
    return sort.constructor(0)(*args)


def proj(sort, i, e):
    if z3.is_app(e) and e.decl().eq(sort.constructor(0)):
        return e.arg(i)
    return sort.accessor(0, i)(e)


# kinds and attributes of RDF terms / python values
isNN = Function("isNN", U, BOOL)
isBN = Function("isBN", U, BOOL)
isLit = Function("isLit", U, BOOL)
isStr = Function("isStr", U, BOOL)
lang = Function("lang", U, U)
dt = Function("dt", U, U)
litval = Function("litval", U, U)
mkLit = Function("mkLit", U, U, U, U)
truthy = Function("truthy", U, BOOL)
ofStr = Function("ofStr", STR, U)
strOf = Function("strOf", U, STR)
ofInt = Function("ofInt", INT, U)


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return BoolVal(True)
    if len(xs) == 1:
        return xs[0]
    return And(*xs)


def disj(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return BoolVal(False)
    if len(xs) == 1:
        return xs[0]
    return Or(*xs)


def flat_and(e):
    if z3.is_and(e):
        out = []
        for c in e.children():
            out += flat_and(c)
        return out
    return [e]


def occurs(v, e, memo=None):
    if memo is None:
        memo = {}
    k = e.get_id()
    if k in memo:
        return memo[k]
    if e.eq(v):
        memo[k] = True
        return True
    if z3.is_quantifier(e):
        r = occurs(v, e.body(), memo)
    else:
        r = any(occurs(v, c, memo) for c in e.children())
    memo[k] = r
    return r


def subst(e, pairs):
    if not pairs:
        return e
    if isinstance(e, bool):
        return e
    return z3.substitute(e, *pairs)


def _solve_eq(l, r, bs):
    """Try to read l == r as a definition of a bound variable; returns list of (b, term) or None."""
    for a, t in ((l, r), (r, l)):
        for b in bs:
            if a.eq(b) and not any(occurs(b, t) for b in [b]):
                return [(b, t)]
        if z3.is_app(a) and a.sort().name() in CTOR and a.decl().eq(CTOR[a.sort().name()][0].constructor(0)):
            srt, n = CTOR[a.sort().name()]
            args = a.children()
            for i, x in enumerate(args):
                for b in bs:
                    if x.eq(b):
                        t_i = proj(srt, i, t)
                        if not occurs(b, t_i):
                            rest = [args[j] == proj(srt, j, t) for j in range(n) if j != i]
                            return [(b, t_i), rest]
    return None


def ex(bs, body):
    """Exists with one-point elimination."""
    bs = list(bs)
    body = z3.simplify(body, elim_and=False) if False else body
    cs = flat_and(body)
    changed = True
    while changed and bs:
        changed = False
        for i, c in enumerate(cs):
            if z3.is_eq(c):
                s = _solve_eq(c.arg(0), c.arg(1), bs)
                if s:
                    b, t = s[0]
                    extra = s[1] if len(s) > 1 else []
                    cs = cs[:i] + extra + cs[i + 1:]
                    cs = [z3.simplify(subst(x, [(b, t)])) for x in cs]
                    cs = [y for x in cs for y in flat_and(x)]
                    bs = [x for x in bs if not x.eq(b)]
                    changed = True
                    break
    cs = [c for c in cs if not z3.is_true(c)]
    if any(z3.is_false(c) for c in cs):
        return BoolVal(False)
    outer = [c for c in cs if not any(occurs(b, c) for b in bs)]
    inner = [c for c in cs if any(occurs(b, c) for b in bs)]
    used = [b for b in bs if any(occurs(b, c) for c in inner)]
    if inner:
        if len(inner) == 1 and z3.is_or(inner[0]):
            return conj(outer + [disj([ex(used, d) for d in inner[0].children()])])
        if len(inner) == 1 and z3.is_quantifier(inner[0]) and inner[0].is_exists():
            pass
        # canonical bound names, so that equal formulas are the same term (cache hits)
        names = [Const(f"q!{i}!{b.sort().name()}", b.sort()) for i, b in enumerate(used)]
        return conj(outer + [Exists(names, subst(conj(inner), list(zip(used, names))))])
    return conj(outer)


def fa(bs, body):
    return z3.simplify(Not(ex(bs, z3.simplify(Not(body))))) if bs else body


AXIOMS = []


def base_axioms():
    u = Const("ax_u", U)
    s = Const("ax_s", STR)
    i = Const("ax_i", INT)
    ax = [
        Not(truthy(NONE)),
        Not(isNN(NONE)), Not(isBN(NONE)), Not(isLit(NONE)), Not(isStr(NONE)),
        ForAll([u], Implies(isLit(u), And(Not(isNN(u)), Not(isBN(u)), truthy(u), Not(isStr(u)))), patterns=[isLit(u)]),
        ForAll([u], Implies(isBN(u), And(Not(isNN(u)), truthy(u), Not(isStr(u)))), patterns=[isBN(u)]),
    ]
    return ax


STR_AXIOMS = None


def str_axioms():
    u = Const("ax_u", U)
    s = Const("ax_s", STR)
    return [
        ForAll([s], And(strOf(ofStr(s)) == s, isStr(ofStr(s)), truthy(ofStr(s)) == (s != z3.StringVal("")),
                        Not(isLit(ofStr(s))), Not(isBN(ofStr(s))), ofStr(s) != NONE), patterns=[ofStr(s)]),
        ForAll([u], Implies(isStr(u), ofStr(strOf(u)) == u), patterns=[strOf(u)]),
    ]


STATS = {"checks": 0, "time": 0.0, "feas": 0, "feas_time": 0.0, "cvc5": 0}
_feas_cache = {}


def decls_of(exprs):
    seen, names, stack = set(), set(), list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            names.add(e.decl().name())
            stack.extend(e.children())
    return names


def relevant_axioms(exprs):
    n = decls_of(exprs)
    ax = []
    if n & {"NONE", "isNN", "isBN", "isLit", "truthy", "isStr"}:
        ax += base_axioms()
    if n & {"ofStr", "strOf", "isStr"}:
        ax += str_axioms()
    if "mkLit" in n:
        u, v, w = (Const(f"ax_{c}", U) for c in "uvw")
        t = mkLit(u, v, w)
        ax.append(ForAll([u, v, w], And(isLit(t), litval(t) == u, lang(t) == v, dt(t) == w, t != NONE, Not(isNN(t)), Not(isBN(t)), Not(isStr(t))),
                         patterns=[t]))
        if n & {"litval"}:
            ax.append(ForAll([u], Implies(isLit(u), mkLit(litval(u), lang(u), dt(u)) == u), patterns=[litval(u)]))
    return ax


RETRY = 3000
_quant = {}


def quantified(f):
    """the formula has a quantifier"""
    i = f.get_id()
    if i in _quant:
        return _quant[i][0]
    r = z3.is_quantifier(f) or any(quantified(x) for x in f.children())
    _quant[i] = (r, f)
    return r


def feasible(pc, c, timeout=150):
    c = z3.simplify(c)
    if z3.is_false(c):
        return False
    fs = list(pc) + [c]
    key = tuple(sorted(f.get_id() for f in fs))
    if key in _feas_cache:
        return _feas_cache[key][0]
    t = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*fs)
    s.add(*relevant_axioms(fs))
    r = s.check()
    if r == z3.unknown and RETRY > timeout and not any(quantified(f) for f in s.assertions()):
        # the machine was busy: a wall-clock limit is no reason to keep an impossible case
        STATS["retries"] = STATS.get("retries", 0) + 1
        s = z3.Solver()
        s.set("timeout", RETRY)
        s.add(*fs)
        s.add(*relevant_axioms(fs))
        r = s.check()
    STATS["feas"] += 1
    STATS["feas_time"] += time.time() - t
    ok = r != z3.unsat
    _feas_cache[key] = (ok, fs)
    return ok


_prove_cache = {}


class Verdict:
    def __init__(self, status, backend="", model=None, time=0.0, reason=""):
        self.status, self.backend, self.model, self.time, self.reason = status, backend, model, time, reason

    def __repr__(self):
        return f"<{self.status} {self.backend} {self.time:.2f}s>"


def small_scope(k):
    u = Const("sc_u", U)
    cs = [Const(f"sc_{i}", U) for i in range(k)]
    return [ForAll([u], Or(*[u == c for c in cs]))]


def prove(pc, goal, timeout=8000, cex=True):
    """Decide pc |- goal.  proved / refuted (with model) / unknown."""
    fs = list(pc) + [Not(goal)]
    key = tuple(sorted(f.get_id() for f in fs))
    if key in _prove_cache:
        return _prove_cache[key][0]
    t0 = time.time()
    STATS["checks"] += 1
    ax = relevant_axioms(fs)
    v = None
    s = z3.Solver()
    s.set("timeout", min(timeout, 3000))
    s.add(*fs)
    s.add(*ax)
    r = s.check()
    if r == z3.unsat:
        v = Verdict("proved", "z3")
    elif r == z3.sat:
        v = Verdict("refuted", "z3", s.model())
    if v is None and cex and U.name() in str({x.sort().name() for x in consts_of(fs)}):
        for k in (2, 3):
            s2 = z3.Solver()
            s2.set("timeout", 1500)
            s2.add(*fs)
            s2.add(*ax)
            s2.add(*small_scope(k))
            if s2.check() == z3.sat:
                v = Verdict("refuted", f"z3 finite model |U|<={k}", s2.model())
                break
    if v is None:
        v = _cvc5(s, timeout)
    if v is None:
        s.set("timeout", timeout)
        s.set("random_seed", 7)
        r = s.check()
        if r == z3.unsat:
            v = Verdict("proved", "z3")
        elif r == z3.sat:
            v = Verdict("refuted", "z3", s.model())
        else:
            v = Verdict("unknown", "z3+cvc5", reason=s.reason_unknown())
    v.time = time.time() - t0
    STATS["time"] += v.time
    _prove_cache[key] = (v, fs)
    return v


def forget(pc, goal):
    _prove_cache.pop(tuple(sorted(f.get_id() for f in list(pc) + [Not(goal)])), None)


def consts_of(exprs):
    seen, out, stack = set(), [], list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(e)
            stack.extend(e.children())
    return out


def _cvc5(solver, timeout):
    STATS["cvc5"] += 1
    txt = solver.to_smt2()
    txt = "(set-logic ALL)\n" + txt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--strings-exp", f"--tlimit={timeout}", f.name],
                           capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().splitlines()
        if out and out[0] == "unsat":
            return Verdict("proved", "cvc5")
    except subprocess.TimeoutExpired:
        pass
    finally:
        os.unlink(f.name)
    return None


def forall(bs, body, patterns=()):
    names = [Const(f"q!{i}!{b.sort().name()}", b.sort()) for i, b in enumerate(bs)]
    p = list(zip(bs, names))
    return ForAll(names, subst(body, p), patterns=[z3.MultiPattern(*[subst(y, p) for y in x]) if isinstance(x, (list, tuple)) else subst(x, p) for x in patterns])

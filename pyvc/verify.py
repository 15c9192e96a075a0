"""Driver: verification tasks, obligation discharge and reporting."""
import time
import traceback

import itertools
import z3
from . import terms as T
from .core import Engine, Obligation, BreakEx, ReturnEx, ContinueEx
from .terms import conj, disj, ex, U, T3, Q4
from .values import *
from .values import TRUE, FALSE


class Task:
    """One function under contract (for one aliasing/shape case)."""

    def __init__(self, name, thunk, functions, prop=None, timeout=8000):
        self.name, self.thunk, self.functions, self.timeout = name, thunk, functions, timeout
        self.obligations, self.status, self.reason, self.paths, self.wall = [], None, "", 0, 0.0
        self.executed, self.contracts_used, self.normal = set(), set(), 0


def outcome(E, f):
    """run interpreted code, returning ('ok', value) or ('raise', ExcV)"""
    try:
        return ("ok", f())
    except PyRaise as p:
        return ("raise", p.exc)


def run_task(task, make_engine):
    t0 = time.time()
    E = make_engine()
    E.reset()
    try:
        res = E.explore(lambda: task.thunk(E))
        task.paths = len(res)
        if not res:
            task.status, task.reason = "vacuous", "no feasible path"
        elif not E.obligations:
            task.status, task.reason = "vacuous", "no obligation generated"
        else:
            task.status = "run"
            task.live = live_paths(E.obligations)
            if task.live == 0:
                task.status, task.reason = "vacuous", "the assumptions of every path are contradictory"
    except Unsupported as u:
        task.status, task.reason = "unsupported", str(u)
    except (BreakEx, ReturnEx, ContinueEx) as u:
        task.status, task.reason = "unsupported", "stray control flow"
    except RecursionError:
        task.status, task.reason = "unsupported", "recursion"
    except z3.Z3Exception as u:
        task.status, task.reason = "unsupported", "z3: " + str(u)[:200]
    except Exception as u:  # engine error: never a violation
        task.status, task.reason = "unsupported", "engine: " + "".join(traceback.format_exception_only(type(u), u)).strip() + " @ " + \
            " <- ".join(f"{f.name}:{f.lineno}" for f in reversed(traceback.extract_tb(u.__traceback__)[-6:]))
    task.executed, task.contracts_used = set(E.functions_run), set(E.contracts_used)
    task.loop_lemmas = getattr(E, "loop_lemmas", 0)
    opens = 0
    for o in E.obligations:
        # once several obligations stay open the rest only gets a short attempt
        o.verdict = T.prove(o.pc, o.goal, timeout=task.timeout if opens < 4 else 1500, cex=opens < 4)
        opens += o.verdict.status == "unknown"
        task.obligations.append(o)
    # an open obligation gets a second, longer attempt (the first may have lacked processor time)
    for o in [o for o in task.obligations if o.verdict.status == "unknown"][:2 if opens < 4 else 1]:
        T.forget(o.pc, o.goal)
        o.verdict = T.prove(o.pc, o.goal, timeout=max(30000, 2 * task.timeout))
    task.digests = dict(E.digests)
    task.wall = time.time() - t0
    return task


def ground_triggers(fs):
    """ground instances of the quantifiers' patterns over a small pool of terms that exist in the intended model, so that
    contradictory axioms are found even where no path mentions the terms that would trigger them"""
    a, b = z3.Const("pool_str", T.U), z3.Const("pool_iri", T.U)
    out = [T.isStr(a), T.truthy(a), a != T.NONE, z3.Not(T.isNN(a)), z3.Not(T.isLit(a)), z3.Not(T.isBN(a)), T.isNN(b), b != T.NONE, z3.Not(T.isLit(b)), z3.Not(T.isBN(b))]
    n = 0
    for f in fs:
        if not (z3.is_quantifier(f) and f.is_forall()):
            continue
        sorts = [f.var_sort(i) for i in range(f.num_vars())]
        pools = [([T.NONE, a, b] if s == T.U else [z3.Const(f"pool_{s}_{i}", s)]) for i, s in enumerate(sorts)]
        combos = list(itertools.islice(itertools.product(*pools), 27))
        for k in range(f.num_patterns()):
            for t in f.pattern(k).children():
                for c in combos:
                    n += 1
                    out.append(z3.Const(f"pool!{n}", t.sort()) == z3.substitute_vars(t, *reversed(c)))
    return out


def live_paths(obls):
    """vacuity guard: number of distinct path conditions of the obligations not refuted by the solver"""
    seen, live = {}, 0
    for o in obls:
        k = tuple(sorted(f.get_id() for f in o.pc))
        if k in seen:
            continue
        seen[k] = o.pc
        s = z3.Solver()
        s.set("timeout", 1000)
        fs = list(o.pc)
        fs += T.relevant_axioms(fs + [o.goal])
        s.add(*fs)
        s.add(*ground_triggers(fs))
        if s.check() != z3.unsat:
            live += 1
            if live >= 3:
                break
    return live


def summarize(tasks):
    """-> dict with counts and lists"""
    proved = [(t, o) for t in tasks for o in t.obligations if o.verdict.status == "proved"]
    refuted = [(t, o) for t in tasks for o in t.obligations if o.verdict.status == "refuted"]
    unknown = [(t, o) for t in tasks for o in t.obligations if o.verdict.status == "unknown"]
    bad = [t for t in tasks if t.status != "run"]
    return dict(proved=proved, refuted=refuted, unknown=unknown, unsupported=bad)


# ---- comparison helpers ---------------------------------------------------------------------

def compare_collection(E, name, got, want, sort, unique=True, decode=None):
    """obligations: the elements of `got` are exactly those satisfying `want` (a predicate on terms), once each"""
    segs = E.segments(got)
    terms = []
    for s in segs:
        try:
            t = E.term(s.elem, sort)
        except Unsupported:
            if isinstance(s.elem, Val) and not isinstance(s.elem, (UV, TupV, StrV)):
                raise
            E.oblige(f"{name}: every element has the right kind", FALSE if isinstance(s, One) else z3.Not(ex(s.bs, s.guard)))
            continue
        terms.append((s, t))
    for s, t in terms:
        if isinstance(s, One):
            E.oblige(f"{name}: only wanted elements", want(t))
        else:
            bs = [E.fresh_const("g", b.sort()) for b in s.bs]
            p = list(zip(s.bs, bs))
            E.oblige(f"{name}: only wanted elements", z3.Implies(T.subst(s.guard, p), want(T.subst(t, p))))
    x = E.fresh_const("x", sort)
    alts = []
    for s, t in terms:
        if isinstance(s, One):
            alts.append(x == t)
        else:
            bs = [z3.FreshConst(b.sort(), "g") for b in s.bs]
            p = list(zip(s.bs, bs))
            alts.append(ex(bs, conj([T.subst(s.guard, p), x == T.subst(t, p)])))
    E.oblige(f"{name}: all wanted elements", z3.Implies(want(x), disj(alts) if alts else FALSE))
    if unique:
        for i, (s, t) in enumerate(terms):
            for j in range(i + 1):
                s2, t2 = terms[j]
                if isinstance(s, One) and isinstance(s2, One):
                    if i != j:
                        E.oblige(f"{name}: no element twice", t != t2)
                    continue
                b1 = [] if isinstance(s, One) else [E.fresh_const("g", b.sort()) for b in s.bs]
                b2 = [] if isinstance(s2, One) else [E.fresh_const("g", b.sort()) for b in s2.bs]
                g1 = TRUE if isinstance(s, One) else T.subst(s.guard, list(zip(s.bs, b1)))
                g2 = TRUE if isinstance(s2, One) else T.subst(s2.guard, list(zip(s2.bs, b2)))
                u1 = t if isinstance(s, One) else T.subst(t, list(zip(s.bs, b1)))
                u2 = t2 if isinstance(s2, One) else T.subst(t2, list(zip(s2.bs, b2)))
                same = conj([a == b for a, b in zip(b1, b2)]) if i == j else FALSE
                E.oblige(f"{name}: no element twice", z3.Implies(conj([g1, g2, u1 == u2]), same))


def compare_set(E, name, s, want, sort):
    x = E.fresh_const("x", sort)
    if not isinstance(s, SetV):
        raise Unsupported(f"{name}: not a set: {s!r}")
    got = s.mem(x) if s.sort is not None else FALSE
    E.oblige(name, got == want(x))


def same_value(E, name, got, want):
    """obligation got == want as python values"""
    r = E.equal(got, want)
    E.oblige(name, z3.BoolVal(r) if isinstance(r, bool) else r)

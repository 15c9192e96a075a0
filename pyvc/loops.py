"""Loop rule: the effect of one iteration is generalised to a set P of processed elements (a candidate
invariant) which is then *proved* inductive (initiation is by construction: P = {}), so the loop is
summarised for any number of iterations."""
import z3
from . import terms as T
from .terms import conj, disj, ex, subst
from .values import *
from .values import TRUE, FALSE
from .core import BreakEx, ContinueEx, ReturnEx


def for_loop(E, it, fr, assign, body, names, loads=()):
    deps = E.deps(it)
    segs = E.segments(it)
    for seg in segs:
        if isinstance(seg, One):
            snap_deps = [d.snap() for d in deps]
            assign(seg.elem)
            try:
                body()
            except ContinueEx:
                pass
            if any(d.snap() != s for d, s in zip(deps, snap_deps)) and not isinstance(it, (ListV,)):
                E.oblige("iteration-safety: the iterated collection is not modified", False, "safety")
        else:
            if isinstance(it, SetV) and any(n in fr.locals and fr.locals[n] is None for n in names & set(loads)):
                # the first iteration sets a local that starts as None: peel it off, for an arbitrary first element
                es = [E.fresh_const("first", b.sort()) for b in seg.bs]
                new = [z3.FreshConst(b.sort(), "i") for b in seg.bs]
                if not E.decide(ex(new, seg.inst(new)[0])):
                    continue
                g0, e0 = seg.inst(es)
                E.assume(g0)
                snap_deps = [d.snap() for d in deps]
                assign(e0)
                try:
                    body()
                except ContinueEx:
                    pass
                if any(d.snap() != s for d, s in zip(deps, snap_deps)):
                    raise Unsupported("iterated collection modified in the loop body")
                seg = Seg(seg.bs, conj([seg.guard, z3.Not(conj([b == e for b, e in zip(seg.bs, es)]))]), seg.elem, seg.ordered)
            sym_loop(E, seg, fr, assign, body, names, deps, it, loads=loads)


class Proc:
    """the set of processed elements"""

    def __init__(self, kind, bs, guard, pf=None, cur=None):
        self.kind, self.bs, self.guard, self.pf, self.cur = kind, bs, guard, pf, cur

    def exists(self, phi):
        """phi: function of a list of terms -> Bool"""
        out = []
        if self.kind == "plus":
            out.append(phi(self.cur))
        new = [z3.FreshConst(b.sort(), "i") for b in self.bs]
        if self.kind == "all":
            out.append(ex(new, conj([subst(self.guard, list(zip(self.bs, new))), phi(new)])))
        else:
            body = phi(new)
            if z3.is_false(z3.simplify(body)):
                pass
            else:
                out.append(ex(new, conj([self.pf(*new), body])))
        return disj(out) if out else FALSE

    def holds(self, xs):
        if self.kind == "all":
            return subst(self.guard, list(zip(self.bs, xs)))
        p = self.pf(*xs)
        if self.kind == "plus":
            return disj([conj([x == c for x, c in zip(xs, self.cur)]), p])
        return p


def prove_now(E, goal, what):
    v = T.prove(E.pcs(), goal, timeout=4000, cex=False)
    E.loop_lemmas = getattr(E, "loop_lemmas", 0) + 1
    if v.status != "proved":
        raise Unsupported(f"loop invariant not inductive: {what} [{v.status}]")


def run_body(E, assign, body, elem):
    """outcome kind of one iteration"""
    try:
        assign(elem)
        body()
    except ContinueEx:
        pass
    except BreakEx:
        return ("break", None)
    except ReturnEx as r:
        return ("return", r.v)
    except PyRaise as p:
        return ("raise", p.exc)
    return ("next", None)


def carried(E, seg, guard, bs, fr, names, loads, accs, iaccs):
    """locals whose value one iteration leaves for the next, in a loop over an indexed group: n -> (ghost function of the
    index giving the value at the head of that iteration, value before the loop)"""
    o = seg.ordered
    if not isinstance(o, IdxOrd) or len(bs) != 1:
        return {}
    out = {}
    for n in sorted(names & set(loads)):
        if n not in fr.locals or n in accs or n in iaccs or fr.locals[n] is None or isinstance(fr.locals[n], (bool, BoolV, Poison)):
            continue
        try:
            t = E.term(fr.locals[n], T.U)
        except Unsupported:
            continue
        E.counter += 1
        # the value may depend on the iterations of the enclosing loops
        f = z3.Function(f"carry_{n}!{E.counter}", *[b.sort() for b in E.binders], z3.IntSort(), T.U)
        out[n] = (lambda q, f=f, outer=list(E.binders): f(*outer, q), t)
    if out:
        b = bs[0]
        if T.prove(E.pcs(), guard == conj([o.lo <= b, b < o.hi]), cex=False).status != "proved":
            return {}
    return out


def sym_loop(E, seg, fr, assign, body, names, deps, it, peeled=False, loads=()):
    E.looped = True
    import copy
    bs = [E.fresh_const("b", b.sort()) for b in seg.bs]
    guard, elem = seg.inst(bs)
    ordered = seg.ordered

    pre = {id(o): (o, s) for o, s in E.snapshot()}
    pre_locals = dict(fr.locals)
    accs = {}
    for n in names:
        if n in fr.locals and isinstance(fr.locals[n], (str, bytes, StrV)) and (type(fr.locals[n]) in (str, bytes) or isinstance(fr.locals[n], StrV)):
            accs[n] = fr.locals[n]

    # integer accumulators (n += e): the value at the loop head is arbitrary, the increments are summed
    iaccs = {}
    for n in names:
        v = fr.locals.get(n)
        if isinstance(v, IntV) or (isinstance(v, int) and not isinstance(v, bool)):
            iaccs[n] = (v, E.fresh_const("acc", T.INT))

    carry = carried(E, seg, guard, bs, fr, names, loads, accs, iaccs)

    def head(first):
        """prepare locals at the loop head"""
        for n in accs:
            fr.locals[n] = StrV([Acc(n)], bytes if isinstance(accs[n], bytes) or isinstance(accs[n], StrV) and accs[n].cls is bytes else str)
        for n in carry:
            fr.locals[n] = UV(carry[n][0](bs[0]))
        for n in iaccs:
            fr.locals[n] = IntV(iaccs[n][1])

    rec, E.recording = E.recording, False
    ghosts = [o for o in E.heap if isinstance(o, GhostV)]
    g0 = {id(g): g.state for g in ghosts}
    g1 = dict(g0)
    if seg.first is not None:
        first = seg.first(bs)
    elif isinstance(ordered, IdxOrd) and len(bs) == 1:
        first = bs[0] == (ordered.hi - 1 if ordered.desc else ordered.lo)
    else:
        E.counter += 1
        first = z3.Function(f"first!{E.counter}", *[b.sort() for b in bs], z3.BoolSort())(*bs)
    if ghosts:
        def begin():
            head(True)
            E.binders = E.binders + bs
            E.assume_dec(guard)
            E.assume_dec(first)
            out = run_body(E, assign, body, elem)
            return out, [g.state for g in ghosts]
        try:
            ends = [e for _, (out, e), _ in E.explore(begin) if out[0] == "next"]
        finally:
            E.recording = rec
        E.recording = False
        for i, g in enumerate(ghosts):
            if ends:
                g1[id(g)] = ends[0][i]
    varied = [g for g in ghosts if not g.same(g0[id(g)], g1[id(g)])]

    def ghost_head():
        if varied:
            f = E.decide(first)
            for g in varied:
                g.state = g0[id(g)] if f else g1[id(g)]

    def one():
        head(True)
        E.binders = E.binders + bs
        E.assume_dec(guard)
        E.check_feasible() if hasattr(E, "check_feasible") else None
        ghost_head()
        return run_body(E, assign, body, elem)
    try:
        paths = E.explore(one)
    finally:
        E.recording = rec
    # ---- guess -------------------------------------------------------------------------
    exits, norm = [], []
    facts = []
    for suffix, out, post in paths:
        decs = [e for k, e in suffix if k == "dec"]
        fs = []
        seen = []
        for k, e in suffix:
            if k == "fact":
                fs.append((list(seen), e))
            else:
                seen.append(e)
        facts.append(fs)
        (norm if out[0] == "next" else exits).append((conj(decs), out, post))
    touched = {}

    def diff(o, before, after):
        return before != after if not isinstance(o, (SetV, ListV, MapV)) else None

    sets, lists, maps, locs = {}, {}, {}, {}
    safe = True
    for i, (c, out, post) in enumerate(norm):
        for o, s in post:
            if id(o) not in pre:
                continue
            b = pre[id(o)][1]
            if isinstance(o, SetV):
                so, bo = s[2], b[2]
                if s[0] is not b[0] and b[0] is not None:
                    raise Unsupported("set sort changed in a loop")
                if len(so) != len(bo) or any(x is not y for x, y in zip(so, bo)):
                    if so[:len(bo)] != bo:
                        raise Unsupported("set rewritten in a loop")
                    sets.setdefault(id(o), (o, []))[1].append((i, so[len(bo):], s[0]))
            elif isinstance(o, ListV):
                si, bi = s[0], b[0]
                if si is not bi and (len(si) != len(bi) or any(x is not y for x, y in zip(si, bi))):
                    if si[:len(bi)] != bi:
                        raise Unsupported("list rewritten in a loop")
                    lists.setdefault(id(o), (o, []))[1].append((i, si[len(bi):]))
            elif isinstance(o, MapV):
                if s[2] is not b[2] and s[2] != b[2]:
                    if s[2][:len(b[2])] != b[2]:
                        raise Unsupported("map rewritten in a loop")
                    maps.setdefault(id(o), (o, []))[1].append((i, s[2][len(b[2]):]))
                if s[3] != b[3]:
                    raise Unsupported("map attribute changed in a loop")
            elif isinstance(o, Frame):
                if o is fr:
                    for n, v in s.items():
                        if n in accs:
                            locs.setdefault(n, {})[i] = v
                        elif n not in b or b[n] is not v:
                            locs.setdefault(n, {})[i] = v
                elif any(n not in b or b[n] is not v for n, v in s.items()):
                    for n, v in s.items():
                        if n in b and b[n] is not v:
                            raise Unsupported("outer local changed in a loop")
            elif isinstance(o, IndexV):
                if any(x is not y for x, y in zip(s, b)):
                    raise Unsupported("index changed in a loop")
            elif isinstance(o, DictV):
                if list(s[0]) != list(b[0]) or any(s[0][k] is not b[0][k] for k in b[0]):
                    raise Unsupported("dict changed in a loop")
            elif isinstance(o, Obj) and not hasattr(o, "loop_diff"):
                if set(s) != set(b) or any(s[k] is not b[k] for k in b):
                    raise Unsupported("object attribute changed in a loop")
            else:
                h = getattr(o, "loop_diff", None)
                if h:
                    if h(b, s):
                        raise Unsupported(f"{o!r} changed in a loop")
                elif s != b:
                    raise Unsupported("heap object changed in a loop")
    conds = [c for c, _, _ in norm]
    # carried locals: the recurrence their values satisfy
    cdef = {}
    for n, (g, init) in carry.items():
        vals = locs.pop(n, {})
        same = lambda v: isinstance(v, UV) and v.e.eq(g(bs[0]))
        if all(same(v) for v in vals.values()):
            continue
        cdef[n] = None
        try:
            tot = g(bs[0])
            for i in range(len(norm)):
                if i in vals:
                    tot = z3.If(conds[i], E.term(vals[i], T.U), tot)
        except Unsupported:
            continue
        cdef[n] = z3.simplify(tot)
    isum = {}
    for n, (old, c0) in iaccs.items():
        if any(T.occurs(c0, c) for c, _, _ in norm + exits):
            raise Unsupported(f"control flow depends on the counter {n}")
        vals = locs.pop(n, {})
        if all(isinstance(v, IntV) and v.e.eq(c0) for v in vals.values()):
            isum[n] = None
            continue
        ok = all(isinstance(v, (IntV, int)) and not isinstance(v, bool) for v in vals.values())
        ds = {i: z3.simplify(E.zint(v) - c0) for i, v in vals.items()} if ok else {}
        if not ok or any(T.occurs(c0, d) for d in ds.values()) or not getattr(E, "sum_hook", None):
            isum[n] = Poison(f"{n} assigned in a loop")
            continue
        tot = z3.IntVal(0)
        for i, d in ds.items():
            tot = z3.If(conds[i], d, tot)
        isum[n] = ("sum", z3.simplify(tot))
    if iaccs and any(isinstance(v, tuple) for v in isum.values()) and exits:
        for n in isum:
            if isinstance(isum[n], tuple):
                isum[n] = Poison(f"{n} summed in a loop with an early exit")
    exit_cond = disj([conj([g for g in T.flat_and(c)]) for c, _, _ in exits]) if exits else FALSE

    def exit_at(xs):
        return subst(exit_cond, list(zip(bs, xs)))

    # ---- iteration safety ---------------------------------------------------------------
    mut = [o for o, _ in sets.values()] + [o for o, _ in maps.values()]
    mut += [o for o, _ in lists.values()]
    for d in deps:
        if any(o is d for o in mut) or any(getattr(o, "parent_dep", None) is d for o in mut):
            if not isinstance(d, ListV):
                E.oblige("iteration-safety: the iterated collection is not modified while it is iterated",
                         z3.Not(disj([ex(bs, conj([c])) for c in conds])), "safety")
                raise Unsupported("iterated collection modified in the loop body")

    base_sets = {k: (o, o.snap()) for k, (o, _) in sets.items()}
    base_maps = {k: (o, o.snap()) for k, (o, _) in maps.items()}
    base_lists = {k: (o, o.snap()) for k, (o, _) in lists.items()}

    def set_ops(k):
        """per path (cond, K, A) of the whole iteration"""
        o, changes = sets[k]
        out = []
        for i, ops, _s in changes:
            def K(x, ops=ops):
                r = TRUE
                for op in ops:
                    r = conj([r, op.K(x)])
                return r

            def A(x, ops=ops):
                r = FALSE
                for op in ops:
                    r = disj([conj([r, op.K(x)]), op.A(x)])
                return r
            out.append((conds[i], K, A))
        return out

    def set_state(proc):
        for k, (o, s) in base_sets.items():
            o.restore(s)
            for i, ops, srt in sets[k][1]:
                if o.sort is None:
                    o.sort = srt
            ops = set_ops(k)

            def K(x, ops=ops, proc=proc):
                def phi(xs):
                    p = list(zip(bs, xs))
                    return disj([conj([subst(c, p), z3.Not(at(Kf, x, p))]) for c, Kf, Af in ops
                                 if not z3.is_true(z3.simplify(Kf(x)))])
                return z3.simplify(z3.Not(proc.exists(phi)))

            def A(x, ops=ops, proc=proc):
                def phi(xs):
                    p = list(zip(bs, xs))
                    return disj([conj([subst(c, p), at(Af, x, p)]) for c, Kf, Af in ops])
                return proc.exists(phi)
            o.apply(Aff(K, A, "loop"))
        for k, (o, s) in base_maps.items():
            o.restore(s)
            new = map_op(k, proc)
            o.ops = o.ops + (new,)
        for k, (o, s) in base_lists.items():
            o.restore(s)
            o.items = o.items + tuple(list_segs(k, proc))
        for n in locs:
            if n in accs:
                continue
            v = flag_value(n, proc)
            fr.locals[n] = v
        for n in accs:
            fr.locals[n] = StrV([Acc(n)]) if proc.kind != "all" else acc_value(n)
        for n, (g, init) in carry.items():
            if n not in cdef:
                fr.locals[n] = pre_locals[n]
            elif cdef[n] is None or exits:
                fr.locals[n] = Poison(f"{n} assigned in a loop")
            elif proc.kind == "P":
                fr.locals[n] = UV(g(bs[0]))
            elif proc.kind == "all":
                o = seg.ordered
                fr.locals[n] = UV(g(z3.simplify(o.lo - 1 if o.desc else o.hi)))
        for n, v in isum.items():
            old, c0 = iaccs[n]
            if v is None:
                fr.locals[n] = old
            elif isinstance(v, Poison):
                fr.locals[n] = v
            elif proc.kind != "all":
                fr.locals[n] = IntV(c0)
            else:
                new = [z3.FreshConst(b.sort(), "i") for b in bs]
                p = list(zip(bs, new))
                r = E.sum_hook(E, [Seg(new, subst(guard, p), IntV(subst(v[1], p)))])
                fr.locals[n] = r if isinstance(old, int) and old == 0 else IntV(E.zint(old) + r.e)

    def map_op(k, proc):
        o, changes = maps[k]
        allops = []
        for i, ops in changes:
            for op in ops:
                allops.append((conds[i], op, len(ops)))
        for c, op, n in allops:
            if n != 1:
                raise Unsupported("several updates of one map per iteration")

        def K(x):
            def phi(xs):
                p = list(zip(bs, xs))
                return disj([conj([subst(c, p), z3.Not(at(op.K, x, p))]) for c, op, _ in allops
                             if not z3.is_true(z3.simplify(op.K(x)))])
            return z3.simplify(z3.Not(proc.exists(phi)))

        def A(x):
            def phi(xs):
                p = list(zip(bs, xs))
                return disj([conj([subst(c, p), at(op.A, x, p)]) for c, op, _ in allops])
            return proc.exists(phi)

        def val(x):
            # the updating iteration must be determined by the key: A is  x == key(b)
            r = None
            real_x, x = x, z3.FreshConst(x.sort(), "y")
            for c, op, _ in allops:
                a = z3.simplify(op.A(x))
                if z3.is_false(a):
                    continue
                kv = op.val(x)
                if z3.is_eq(a):
                    # a value that is a function of the key alone needs no solution for the iteration
                    for l, r_ in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                        if l.eq(x) and any(T.occurs(b, r_) for b in bs):
                            w = subst(kv, [(r_, x)])
                            if not any(T.occurs(b, w) for b in bs):
                                kv = w
                if not any(T.occurs(b, kv) for b in bs) and len(allops) == 1:
                    r = kv
                    continue
                sol = solve_for(a, bs)
                if sol is None:
                    raise Unsupported("map update key does not determine the iteration")
                v = subst(op.val(x), sol)
                r = v if r is None else z3.If(conj([subst(c, sol)]), v, r)
            return None if r is None else subst(r, [(x, real_x)])
        return DOp(K, A, val)

    def list_segs(k, proc):
        out = []
        for i, items in lists[k][1]:
            for itx in items:
                new = [z3.FreshConst(b.sort(), "b") for b in bs]
                p = list(zip(bs, new))
                g = conj([proc.holds(new), subst(conds[i], p)])
                if isinstance(itx, One):
                    out.append(Seg(new, g, subv(itx.elem, p), _ord(ordered, itx, None)))
                else:
                    inner = itx.sub(p)
                    nb = [z3.FreshConst(b.sort(), "b") for b in inner.bs]
                    ig, ie = inner.inst(nb)
                    out.append(Seg(new + nb, conj([g, ig]), ie, _ord(ordered, itx, itx.ordered)))
        return out

    def _ord(o, itx, inner):
        if isinstance(o, IdxOrd):
            one = isinstance(itx, One) and len(norm) == 1 and not exits and all(len(items) == 1 for _, cs in lists.values() for _, items in cs)
            return o if one else None
        return o if (o is not None and isinstance(itx, One) and len(norm) >= 1) else None

    def flag_value(n, proc):
        """locals assigned in the loop: constants set under a condition become a flag, everything else
        is iteration-local"""
        vals = locs[n]
        cs = []
        old = pre_locals.get(n, None)
        if n in pre_locals and isinstance(old, (bool, BoolV)) and all(isinstance(v, bool) for v in vals.values()):
            tr = disj([conds[i] for i, v in vals.items() if v is True])
            fl = disj([conds[i] for i, v in vals.items() if v is False])
            if z3.is_false(z3.simplify(fl)) or z3.is_false(z3.simplify(tr)):
                val = z3.is_false(z3.simplify(fl))
                e = proc.exists(lambda xs: subst(tr if val else fl, list(zip(bs, xs))))
                o = E.zbool(old)
                return BoolV(z3.simplify(disj([o, e]) if val else conj([o, z3.Not(e)])))
        return Poison(f"{n} assigned in a loop")

    acc_def = {}

    def acc_value(n):
        return acc_def[n]

    if accs:
        changed = {n for n in locs if n in accs and any(
            not (isinstance(v, StrV) and len(v.pieces) == 1 and isinstance(v.pieces[0], Acc)) for v in locs[n].values())}
        from . import strings
        for n in list(accs):
            if n not in changed:
                acc_def[n] = accs[n]
                continue
            ok = all(isinstance(v, StrV) and v.pieces and isinstance(v.pieces[0], Acc) and v.pieces[0].name == n
                     and not any(isinstance(p, Acc) for p in v.pieces[1:]) for v in locs[n].values())
            if not ok:
                # assigned before use in every iteration: iteration-local
                if all(not _mentions_acc(v) for v in locs[n].values()) and len(locs[n]) == len(norm):
                    acc_def[n] = Poison(f"{n} assigned in a loop")
                    continue
                raise Unsupported(f"string {n} is rebuilt in a loop")
            cases = []
            for i, (c, out, post) in enumerate(norm):
                v = locs[n].get(i)
                cases.append((conds[i], v.pieces[1:] if v is not None else []))
            acc_def[n] = strings.accumulate(E, accs[n], seg, bs, guard, cases)

    # ---- verify the step ----------------------------------------------------------------
    nothing = not sets and not maps and not exits
    loop_id = E.counter
    if not nothing or any(n not in accs for n in locs) or lists or cdef or ghosts:
        E.counter += 1
        pf = z3.Function(f"P!{E.counter}", *[b.sort() for b in bs], z3.BoolSort())
        snap = E.snapshot()
        pc0 = list(E.pc)
        cur = bs
        procP = Proc("P", bs, guard, pf)
        procQ = Proc("plus", bs, guard, pf, cur)

        def assume_P():
            new = [z3.FreshConst(b.sort(), "i") for b in bs]
            g = subst(guard, list(zip(bs, new)))
            E.assume(T.forall(new, z3.Implies(pf(*new), conj([g, z3.Not(exit_at(new))])), patterns=[pf(*new)]))

        def step():
            set_state(procP)
            E.binders = E.binders + bs
            assume_P()
            E.assume(z3.Not(pf(*bs)))
            E.assume_dec(guard)
            ghost_head()
            out = run_body(E, assign, body, elem)
            for g in ghosts if out[0] == "next" else ():
                E.oblige(f"{g.name}: every round of the loop ends in one place", g.same(g.state, g1[id(g)]))
            if out[0] != "next":
                prove_now(E, exit_at(bs), "unexpected exit from the loop body")
                return out
            prove_now(E, z3.Not(exit_at(bs)), "iteration falls through")
            got_sets = {k: (o, o.snap()) for k, (o, _) in base_sets.items()}
            got_maps = {k: (o, o.snap()) for k, (o, _) in base_maps.items()}
            got_locals = dict(fr.locals)
            other = E.snapshot()
            set_state(procQ)
            for k, (o, gs) in got_sets.items():
                x = E.fresh_const("x", o.sort)
                want = o.mem(x)
                keep = o.snap()
                o.restore(gs)
                got = o.mem(x)
                o.restore(keep)
                prove_now(E, got == want, f"set {o.name}")
            for k, (o, gs) in got_maps.items():
                x = E.fresh_const("x", o.ksort)
                wh, wv = o.has(x), o.get(x)
                keep = o.snap()
                o.restore(gs)
                gh, gv = o.has(x), o.get(x)
                o.restore(keep)
                prove_now(E, gh == wh, f"map {o.name} keys")
                prove_now(E, z3.Implies(gh, gv == wv), f"map {o.name} values")
            for n in locs:
                if n in accs:
                    continue
                w = fr.locals.get(n)
                if isinstance(w, Poison):
                    continue
                prove_now(E, E.zbool(got_locals[n]) == E.zbool(w), f"flag {n}")
            # nothing else may change (checked against the pre-loop state)
            for o, s in other:
                if id(o) in base_sets or id(o) in base_maps or id(o) in base_lists or o is fr:
                    continue
                if id(o) in pre:
                    b = pre[id(o)][1]
                    if isinstance(o, (SetV, ListV, MapV, IndexV, Obj, DictV)):
                        if not same_snap(o, s, b):
                            raise Unsupported("unexpected effect in loop step")
            for k, (o, _) in base_lists.items():
                pass
            return out
        rec = E.recording
        E.explore(step)
        E.restore(snap)
        E.pc = pc0
    # ---- continue after the loop -----------------------------------------------------------
    if exits and varied:
        raise Unsupported("ghost state in a loop with an early exit")
    if exits and E.choose():
        # some iteration leaves the loop
        pf = z3.Function(f"Px!{E.counter}", *[b.sort() for b in bs], z3.BoolSort())
        E.counter += 1
        cur = [E.fresh("w", b.sort()) for b in bs]
        g, el = seg.inst(cur)
        set_state(Proc("P", bs, guard, pf))
        new = [z3.FreshConst(b.sort(), "i") for b in bs]
        E.assume(T.forall(new, z3.Implies(pf(*new), conj([subst(guard, list(zip(bs, new))), z3.Not(exit_at(new))])),
                           patterns=[pf(*new)]))
        E.assume(z3.Not(pf(*cur)))
        E.assume_dec(g)
        E.assume_dec(exit_at(cur))
        if not T.feasible(E.pcs(), TRUE):
            raise Infeasible()
        if lists:
            for k, (o, _) in base_lists.items():
                pass
        try:
            assign(el)
            body()
        except ContinueEx:
            raise Infeasible()
        # body fell through: contradicts exit condition
        raise Infeasible()
    E.pc = list(E.pc)
    if exits:
        new = [z3.FreshConst(b.sort(), "i") for b in bs]
        E.assume_dec(T.forall(new, z3.Not(conj([subst(guard, list(zip(bs, new))), exit_at(new)]))))
        if not T.feasible(E.pcs(), TRUE):
            raise Infeasible()
    set_state(Proc("all", bs, guard))
    if varied:
        new = [z3.FreshConst(b.sort(), "i") for b in bs]
        some = E.decide(ex(new, subst(guard, list(zip(bs, new)))))
        for g in varied:
            g.state = g1[id(g)] if some else g0[id(g)]
    for n, v in cdef.items():
        if v is not None and not exits:
            g, init = carry[n]
            o = seg.ordered
            first, nxt = (o.hi - 1, bs[0] - 1) if o.desc else (o.lo, bs[0] + 1)
            E.assume(g(z3.simplify(first)) == init)
            q = z3.FreshConst(z3.IntSort(), "q")
            eq = subst(z3.Implies(guard, g(z3.simplify(nxt)) == v), [(bs[0], q)])
            E.assume(T.forall([q], eq, patterns=[g(z3.simplify(subst(nxt, [(bs[0], q)])))]))
            E.assume(T.forall([q], eq, patterns=[g(q)]))
    for fs in facts:
        for seen, e in fs:
            if any(T.occurs(b, e) for b in bs) and not z3.is_quantifier(e):
                new = [z3.FreshConst(b.sort(), "i") for b in bs]
                p = list(zip(bs, new))
                E.assume(T.forall(new, z3.Implies(conj([subst(s, p) for s in seen]), subst(e, p))))
    for n in names:
        if n not in locs and n not in accs and n not in pre_locals:
            fr.locals[n] = Poison(f"{n} assigned in a loop")


def at(f, x, pairs):
    """f(x) with the loop variables replaced in f only (x may itself mention them)"""
    y = z3.FreshConst(x.sort(), "y")
    return subst(subst(f(y), pairs), [(y, x)])


def _mentions_acc(v):
    return isinstance(v, StrV) and any(isinstance(p, Acc) for p in v.pieces)


def same_snap(o, s, b):
    if hasattr(o, "loop_diff"):
        return not o.loop_diff(b, s)
    if isinstance(o, Obj):
        return set(s) == set(b) and all(s[k] is b[k] for k in b)
    if isinstance(o, DictV):
        return list(s[0]) == list(b[0]) and all(s[0][k] is b[0][k] for k in b[0])
    if isinstance(o, MapV):
        return s[2] == b[2]
    if isinstance(o, SetV):
        return s[2] == b[2]
    return all(x is y for x, y in zip(s, b))


def solve_for(a, bs):
    """solve conjunction a of equations for all bound variables; returns substitution or None"""
    sol = []
    bs = list(bs)
    cs = T.flat_and(a)
    progress = True
    while progress and bs:
        progress = False
        for c in cs:
            if z3.is_eq(c):
                s = T._solve_eq(c.arg(0), c.arg(1), bs)
                if s:
                    b, t = s[0]
                    if any(T.occurs(x, t) for x in bs):
                        continue
                    sol.append((b, t))
                    if len(s) > 1:
                        cs = cs + s[1]
                    bs = [x for x in bs if not x.eq(b)]
                    progress = True
                    break
    return sol if not bs else None

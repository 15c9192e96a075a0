"""Symbolic executor for the real source of the repository (no annotations, no rewriting)."""
import ast
import builtins
import inspect
import operator
import os
import types
import collections

import z3
from . import terms as T
from .terms import U, T3, Q4, P2, STR, INT, BOOL, NONE, mk, proj, conj, disj, ex, fa, subst
from .values import *
from .values import TRUE, FALSE
from . import state

REPO = os.environ.get("VERIF_REPO", "/repo") + "/src/pymantic"


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Oracle:
    def __init__(self):
        self.trace, self.pos = [], 0  # entries [choice, has_alt]

    def backtrack(self):
        while self.trace and not self.trace[-1][1]:
            self.trace.pop()
        if not self.trace:
            return False
        c = self.trace[-1]
        self.trace[-1] = [not c[0], False]
        return True


class Obligation:
    def __init__(self, name, pc, goal, func=None, kind="post"):
        self.name, self.pc, self.goal, self.func, self.kind = name, list(pc), goal, func, kind
        self.verdict = None


_asts = {}


def module_ast(path):
    if path not in _asts:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        idx = {}

        def walk(n, qual):
            for c in ast.iter_child_nodes(n):
                q = qual
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    first = min([c.lineno] + [d.lineno for d in getattr(c, "decorator_list", [])])
                    idx.setdefault((first, getattr(c, "name", "<lambda>")), []).append(c)
                walk(c, q)
        walk(tree, "")
        _asts[path] = (tree, idx)
    return _asts[path]


def digest(node):
    """of the syntax tree, without comments, layout and docstrings"""
    import copy
    import hashlib
    n = copy.deepcopy(node)
    for m in ast.walk(n):
        b = getattr(m, "body", None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            m.body = b[1:]
    return hashlib.sha256(ast.dump(n).encode()).hexdigest()[:16]


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def stored_names(nodes):
    out = set()
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


def loaded_names(nodes):
    return {n.id for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


class Engine:
    def __init__(self):
        self.contracts = {}      # real function -> contract callable(E, args, kwargs)
        self.disabled = set()    # real functions executed by body, not by contract
        self.obligations = []
        self.recording = True
        self.active = []
        self.max_paths = 3000
        self.digests = {}            # name -> digest of the syntax tree executed
        self.functions_run = set()   # names of repo functions symbolically executed
        self.contracts_used = set()
        self.assumptions = set()
        self.reset()

    # ---- state -----------------------------------------------------------------------
    def reset(self):
        self.heap = []
        self.looped = False
        self.pc = []            # list of (kind, expr)
        self.oracles = []
        self.binders = []
        self.counter = 0
        self.depth = 0
        self.cur_exc = []

    def register(self, o):
        self.heap.append(o)

    def snapshot(self):
        return [(o, o.snap()) for o in self.heap]

    def restore(self, snap):
        for o, s in snap:
            o.restore(s)
        del self.heap[len(snap):]

    def fresh(self, name, sort):
        self.counter += 1
        n = f"{name}!{self.counter}"
        if self.binders:
            f = z3.Function(n, *[b.sort() for b in self.binders], sort)
            return f(*self.binders)
        return z3.Const(n, sort)

    def fresh_const(self, name, sort):
        self.counter += 1
        return z3.Const(f"{name}!{self.counter}", sort)

    def pcs(self):
        return [e for _, e in self.pc]

    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise Infeasible()
            return
        e = z3.simplify(e) if not z3.is_quantifier(e) else e
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        self.pc.append(("fact", e))

    def assume_dec(self, e):
        if z3.is_true(e):
            return
        self.pc.append(("dec", e))

    def choose(self):
        """nondeterministic binary choice"""
        o = self.oracles[-1]
        if o.pos < len(o.trace):
            c = o.trace[o.pos][0]
        else:
            c = True
            o.trace.append([True, True])
        o.pos += 1
        return c

    def decide(self, c):
        if isinstance(c, BoolV):
            c = c.e
        if isinstance(c, bool):
            return c
        c0 = z3.simplify(c)
        if z3.is_true(c0):
            return True
        if z3.is_false(c0):
            return False
        o = self.oracles[-1]
        if o.pos < len(o.trace):
            ch = o.trace[o.pos][0]
            o.pos += 1
            self.assume_dec(c0 if ch else z3.Not(c0))
            return ch
        pcs = self.pcs()
        t = T.feasible(pcs, c0)
        f = T.feasible(pcs, z3.Not(c0)) if t else True
        if not t and not f:
            raise Infeasible()
        if t and f:
            o.trace.append([True, True])
            ch = True
        else:
            ch = bool(t)
            o.trace.append([ch, False])
        o.pos += 1
        self.assume_dec(c0 if ch else z3.Not(c0))
        return ch

    def explore(self, thunk):
        """Run thunk on every path from the current state; yields (pc suffix, outcome, post snapshot).
        State is restored afterwards."""
        snap, pc0 = self.snapshot(), list(self.pc)
        o = Oracle()
        self.oracles.append(o)
        depth, binders, exc = self.depth, list(self.binders), list(self.cur_exc)
        res = []
        try:
            while True:
                self.restore(snap)
                self.pc = list(pc0)
                self.depth, self.binders, self.cur_exc = depth, list(binders), list(exc)
                o.pos = 0
                try:
                    out = thunk()
                    res.append((self.pc[len(pc0):], out, self.snapshot()))
                except Infeasible:
                    pass
                if len(res) > self.max_paths:
                    raise Unsupported("too many paths")
                if not o.backtrack():
                    break
        finally:
            self.oracles.pop()
            self.restore(snap)
            self.pc = pc0
            self.depth, self.binders, self.cur_exc = depth, binders, exc
        return res

    def oblige(self, name, goal, kind="post"):
        if not self.recording:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.obligations.append(Obligation(name, self.pcs(), goal, kind=kind))

    # ---- values <-> terms ------------------------------------------------------------
    def sort_of(self, v):
        if isinstance(v, TupV):
            n = len(v.items)
            from pymantic.primitives import Triple, Quad
            if v.term is not None:
                return v.term.sort()
            if v.cls.__name__ == "Literal":
                return U
            return {3: T3, 4: Q4, 2: P2}.get(n, U)
        return U

    def tuple_cls(self, sort):
        from pymantic.primitives import Triple, Quad
        return {"T3": Triple, "Q4": Quad, "P2": tuple}[sort.name()]

    def term(self, v, sort=None):
        if sort is None:
            sort = self.sort_of(v)
        if sort.eq(U):
            return self.uterm(v)
        if sort.eq(STR):
            return self.zstr(v)
        if sort.eq(INT):
            return self.zint(v)
        if sort.eq(BOOL):
            return self.zbool(v)
        if sort.name() in T.CTOR:
            if isinstance(v, TupV):
                if v.term is not None and v.term.sort().eq(sort):
                    return v.term
                n = T.CTOR[sort.name()][1]
                if len(v.items) == n:
                    return mk(sort, *[self.uterm(i) for i in v.items])
            if isinstance(v, tuple) and len(v) == T.CTOR[sort.name()][1]:
                return mk(sort, *[self.uterm(i) for i in v])
            raise Unsupported(f"{v!r} is not a {sort}")
        raise Unsupported(f"term of {v!r} at {sort}")

    def uterm(self, v):
        if v is None:
            return NONE
        if isinstance(v, UV):
            return v.e
        if isinstance(v, str):
            return T.ofStr(zstr(v))
        if isinstance(v, StrV):
            if len(v.pieces) == 1 and isinstance(v.pieces[0], Zs):
                e = v.pieces[0].e
                if z3.is_app(e) and e.decl().eq(T.strOf):
                    return e.arg(0)
            return T.ofStr(v.z())
        if isinstance(v, TupV) and v.cls.__name__ == "Literal" and len(v.items) == 3:
            return T.mkLit(*[self.uterm(i) for i in v.items])
        if isinstance(v, RecV):
            if "$ufun" in v.fields:
                return v.fields["$ufun"](self, v)
            if "subject" in v.fields:  # a Resource: equality is equality of the subject
                return z3.Function("resOf", U, U)(self.uterm(v.fields["subject"]))
        if isinstance(v, (TupV, SetV)) and getattr(self, "u_key_hook", None):
            return self.u_key_hook(self, v)
        if isinstance(v, Obj):
            return self.obj_const(v)
        if isinstance(v, OpaqueV):
            return z3.Const("opaque_" + v.name, U)
        if isinstance(v, BoolV):
            return z3.If(v.e, z3.Const("True_", U), z3.Const("False_", U))
        if isinstance(v, IntV):
            return T.ofInt(v.e)
        if isinstance(v, bool):
            return z3.Const("True_" if v else "False_", U)
        if isinstance(v, int):
            return T.ofInt(z3.IntVal(v))
        if isinstance(v, type):
            return z3.Const("class_" + v.__module__ + "." + v.__qualname__, U)
        raise Unsupported(f"no term for {v!r}")

    def obj_const(self, o):
        if "$bn" in o.attrs:
            return o.attrs["$bn"]
        return z3.Const(f"obj_{id(o)}", U)

    def from_term(self, e, sort=None):
        if sort is None:
            sort = e.sort()
        if sort.eq(U):
            return UV(e)
        if sort.eq(STR):
            return sv(e)
        if sort.eq(INT):
            return IntV(e)
        if sort.eq(BOOL):
            return BoolV(e)
        if sort.name() in T.CTOR:
            n = T.CTOR[sort.name()][1]
            return TupV(self.tuple_cls(sort), [UV(proj(sort, i, e)) for i in range(n)], e)
        raise Unsupported(f"value of sort {sort}")

    def zstr(self, v):
        if isinstance(v, str):
            return zstr(v)
        if isinstance(v, StrV):
            return v.z()
        if isinstance(v, UV):
            return T.strOf(v.e)
        raise Unsupported(f"not a string: {v!r}")

    def zint(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, IntV):
            return v.e
        if isinstance(v, BoolV):
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported(f"not an int: {v!r}")

    def zbool(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, BoolV):
            return v.e
        raise Unsupported(f"not a bool: {v!r}")

    # ---- truth, equality --------------------------------------------------------------
    def truth(self, v):
        """z3 Bool or bool"""
        if isinstance(v, Poison):
            raise Unsupported("loop-carried value: " + v.why)
        if isinstance(v, BoolV):
            return v.e
        if getattr(v, "always_true", False):
            return True
        if isinstance(v, IntV):
            return v.e != 0
        if isinstance(v, UV):
            return T.truthy(v.e)
        if isinstance(v, StrV):
            if any(isinstance(p, str) or isinstance(p, (Ch, Hex)) for p in v.pieces):
                return True
            if not v.pieces:
                return False
            return v.z() != z3.StringVal("")
        if isinstance(v, TupV):
            return len(v.items) > 0
        if isinstance(v, (SeqV, ListV, SetV)):
            return self.nonempty(v)
        if isinstance(v, DictV):
            return len(v.d) > 0
        if isinstance(v, MapV):
            k = z3.FreshConst(v.ksort, "k")
            return ex([k], v.has(k))
        if isinstance(v, IndexRef):
            k = z3.FreshConst(U, "k")
            return ex([k], self.idx_has(v, k))
        if isinstance(v, (Obj, RecV)):
            for nm in ("__bool__", "__len__"):
                if nm == "__len__" and "$truth" in getattr(v, "fields", {}):
                    return v.fields["$truth"]
                m = self.class_lookup(v.cls, nm)
                if m is not None:
                    r = self.call(self.bind(m, v, v.cls), [], {})
                    return self.truth(r)
            return True
        if isinstance(v, OpaqueV):
            t = v.attrs.get("$truth")
            if t is not None:
                return t
            raise Unsupported(f"truth of {v}")
        if isinstance(v, (FuncV, BoundV, BuiltinV, ExcV, LazyV)):
            return True
        if isinstance(v, Val):
            raise Unsupported(f"truth of {v!r}")
        return bool(v)

    def nonempty(self, v):
        segs = self.segments(v)
        out = []
        for s in segs:
            if isinstance(s, One):
                return True
            out.append(ex(s.bs, s.guard))
        return disj(out) if out else False

    def test(self, v):
        return self.decide(self.truth(v))

    def equal(self, a, b):
        """z3 Bool / bool for python a == b"""
        if a is b and not isinstance(a, Poison):
            return True
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("loop-carried value")
        if not isinstance(a, Val) and not isinstance(b, Val):
            return a == b
        if isinstance(b, StrV) and not isinstance(a, StrV):
            a, b = b, a
        if isinstance(a, StrV):
            if isinstance(b, (str, StrV)):
                return self.str_equal(a, b)
            if isinstance(b, UV):
                return b.e == self.uterm(a)
            if b is None or not isinstance(b, Val):
                return False
            if isinstance(b, (TupV, IntV, BoolV)):
                return False
        if isinstance(a, UV) or isinstance(b, UV):
            x, y = (a, b) if isinstance(a, UV) else (b, a)
            if isinstance(y, (Obj, RecV)):
                m = self.class_lookup(y.cls, "__eq__")
                if m is not None and m is not object.__eq__ and isinstance(m, types.FunctionType):
                    r = self.call(self.bind(m, y, y.cls), [x], {})
                    if r is NotImplemented:
                        return False
                    return self.truth(r)
            return x.e == self.uterm(y)
        if isinstance(a, TupV) or isinstance(b, TupV):
            if not isinstance(a, TupV):
                a, b = b, a
            items = b.items if isinstance(b, TupV) else (b if isinstance(b, tuple) else None)
            if items is None:
                return False
            if len(items) != len(a.items):
                return False
            return self.zand([self.equal(x, y) for x, y in zip(a.items, items)])
        if isinstance(a, (IntV, BoolV)) or isinstance(b, (IntV, BoolV)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, BoolV) and isinstance(y, (BoolV, bool)):
                    return x.e == self.zbool(y)
            if isinstance(a, (IntV, int, BoolV)) and isinstance(b, (IntV, int, BoolV)):
                return self.zint(a) == self.zint(b)
            return False
        if isinstance(a, (Obj, RecV)) or isinstance(b, (Obj, RecV)):
            x, y = (a, b) if isinstance(a, (Obj, RecV)) else (b, a)
            m = self.class_lookup(x.cls, "__eq__")
            if isinstance(m, types.FunctionType):
                r = self.call(self.bind(m, x, x.cls), [y], {})
                if r is NotImplemented:
                    return False
                return self.truth(r)
            return False
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            if isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
                return a.name == b.name
            return self.uterm(a) == self.uterm(b)
        if isinstance(a, SetV) and isinstance(b, SetV):
            srt = a.sort if a.sort is not None else b.sort
            if srt is None:
                return True
            x = z3.FreshConst(srt, "x")
            return T.forall([x], a.mem(x) == b.mem(x))
        if isinstance(a, ListV) and isinstance(b, (list, ListV)):
            la = [o.elem for o in a.items] if a.concrete() else None
            lb = list(b) if isinstance(b, list) else ([o.elem for o in b.items] if b.concrete() else None)
            if la is not None and lb is not None:
                return len(la) == len(lb) and self.zand([self.equal(x, y) for x, y in zip(la, lb)])
        raise Unsupported(f"equality of {a!r} and {b!r}")

    def zand(self, xs):
        xs = [z3.BoolVal(x) if isinstance(x, bool) else x for x in xs]
        return z3.simplify(conj(xs)) if xs else True

    def str_equal(self, a, b):
        from . import strings
        return strings.str_equal(self, a, b)

    def identical(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if isinstance(x, UV):
                return x.e == NONE
            return x is None
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            if isinstance(y, BoolV):
                return y.e == x
            if isinstance(y, UV):
                return y.e == self.uterm(x)
            return x is y
        if isinstance(a, UV) and isinstance(b, UV):
            if a.e.eq(b.e):
                return True
            if getattr(self, "u_identity", False):
                return self.uterm(a) == self.uterm(b)
            raise Unsupported("identity of unknown values")
        if isinstance(a, TupV) and isinstance(b, TupV):
            if a is b:
                return True
            raise Unsupported("identity of tuples")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and "$bn" in x.attrs and (isinstance(y, UV) or isinstance(y, Obj) and "$bn" in y.attrs):
                return x is y or x.attrs["$bn"] == self.uterm(y)
        return a is b

    # ---- sequences ----------------------------------------------------------------------
    def segments(self, v, consume=True):
        """list of One/Seg for iterating v (consumes generators)"""
        if isinstance(v, Poison):
            raise Unsupported("loop-carried value: " + v.why)
        if isinstance(v, SeqV):
            return list(v.segs)
        if isinstance(v, ListV):
            return list(v.items)
        if isinstance(v, SetV):
            return v.segs()
        if isinstance(v, TupV):
            return [One(i) for i in v.items]
        if isinstance(v, LazyV):
            if v.done:
                return []
            v.done = True
            return v.thunk()
        if isinstance(v, DictV):
            return [One(k) for k in v.d]
        if isinstance(v, MapV):
            k = z3.FreshConst(v.ksort, "k")
            return [Seg([k], v.has(k), v.kwrap(k))]
        if isinstance(v, IndexRef):
            k = z3.FreshConst(U, "k")
            return [Seg([k], self.idx_has(v, k), UV(k))]
        if isinstance(v, StrV):
            from . import strings
            segs = strings.chars(self, v)
            if v.cls is bytes:
                raise Unsupported("iteration over unknown bytes")
            return segs
        if type(v).__name__ == "EncV" and v.codec in ("utf-8", "utf8"):
            from . import strings
            us = strings.unit(strings.pieces(v.s))
            if all(isinstance(u, (str, Ch)) for u in us):
                return [One(IntV(z3.simplify(b) if not isinstance(b, int) else z3.IntVal(b))) for u in us
                        for b in (u.encode() if isinstance(u, str) else strings.utf8_char(self, u.code))]
        if isinstance(v, (Obj, RecV, OpaqueV)):
            if isinstance(v, OpaqueV) and "__iter__" in v.methods:
                return self.segments(v.methods["__iter__"](self, [], {}))
            m = self.class_lookup(v.cls, "__iter__")
            if m is not None:
                return self.segments(self.call(self.bind(m, v, v.cls), [], {}))
            raise Unsupported(f"iteration over {v!r}")
        h = getattr(self, "u_segments_hook", None)
        if h and isinstance(v, UV):
            r = h(self, v)
            if r is not None:
                return r
        if isinstance(v, Val):
            raise Unsupported(f"iteration over {v!r}")
        if isinstance(v, (str, tuple, list, range, dict, type({}.keys()), type({}.values()), type({}.items()))):
            return [One(i) for i in v]
        if isinstance(v, (set, frozenset)):
            return [One(i) for i in sorted(v, key=repr)]
        if v is None:
            raise PyRaise(ExcV(TypeError))
        raise Unsupported(f"iteration over {v!r}")

    def deps(self, v):
        if isinstance(v, (LazyV, SeqV)):
            return tuple(v.deps)
        if isinstance(v, (SetV, ListV, DictV, MapV)):
            return (v,)
        if isinstance(v, IndexRef):
            return (v.root,)
        if hasattr(v, "vc_deps"):
            return v.vc_deps()
        if isinstance(v, Obj):
            if "$view" in v.attrs:
                return (getattr(v.attrs["$view"], "dep", v.attrs["$view"]),)
        return ()

    # ---- Index ------------------------------------------------------------------------
    def idx_has(self, r, k):
        p = r.path + (k,)
        f = (r.root.h1, r.root.h2, r.root.h3)[len(p) - 1]
        return f(*p)

    def idx_get(self, r, k):
        """r[k] with defaultdict auto-creation"""
        root = r.root
        p = r.path + (k,)
        here = self.idx_has(r, k)
        if len(p) == 3:
            if self.decide(here):
                return self.from_term(root.leaf(*p), T3)
            raise Unsupported("auto-creation at leaf level")
        if not self.decide(here):
            if not root.auto:
                raise PyRaise(ExcV(KeyError, (UV(k),)))
            self.idx_create(r, k)
        return IndexRef(root, p)

    def idx_create(self, r, k):
        root = r.root
        p = r.path + (k,)
        h1, h2, h3 = root.h1, root.h2, root.h3
        if len(p) == 1:
            root.h1 = lambda a: disj([h1(a), a == p[0]])
            root.h2 = lambda a, b: conj([a != p[0], h2(a, b)])
            root.h3 = lambda a, b, c: conj([a != p[0], h3(a, b, c)])
        elif len(p) == 2:
            root.h2 = lambda a, b: disj([h2(a, b), conj([a == p[0], b == p[1]])])
            root.h3 = lambda a, b, c: conj([z3.Not(conj([a == p[0], b == p[1]])), h3(a, b, c)])

    def idx_set(self, r, k, v):
        root = r.root
        p = r.path + (k,)
        if len(p) != 3:
            raise Unsupported("storing a dict into an index")
        t = self.term(v, T3)
        h3, leaf = root.h3, root.leaf
        root.h3 = lambda a, b, c: disj([h3(a, b, c), conj([a == p[0], b == p[1], c == p[2]])])
        root.leaf = lambda a, b, c: z3.If(conj([a == p[0], b == p[1], c == p[2]]), t, leaf(a, b, c))

    def idx_del(self, r, k, raise_missing=True):
        root = r.root
        p = r.path + (k,)
        if not self.decide(self.idx_has(r, k)):
            if raise_missing:
                raise PyRaise(ExcV(KeyError, (UV(k),)))
            return
        h1, h2, h3 = root.h1, root.h2, root.h3
        if len(p) == 3:
            root.h3 = lambda a, b, c: conj([h3(a, b, c), z3.Not(conj([a == p[0], b == p[1], c == p[2]]))])
        elif len(p) == 2:
            root.h2 = lambda a, b: conj([h2(a, b), z3.Not(conj([a == p[0], b == p[1]]))])
        else:
            root.h1 = lambda a: conj([h1(a), a != p[0]])
        # contents below a deleted key are unreachable; re-creation clears them

    # ---- classes and attributes ---------------------------------------------------------
    def class_lookup(self, cls, name):
        for c in getattr(cls, "__mro__", (cls,)):
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def bind(self, m, obj, cls):
        if isinstance(m, types.FunctionType):
            return BoundV(m, obj)
        if isinstance(m, FuncV):
            return BoundV(m, obj)
        if isinstance(m, classmethod):
            return BoundV(m.__func__, cls)
        if isinstance(m, staticmethod):
            return m.__func__
        return m

    def isinstance_(self, v, cls):
        """z3 Bool / bool"""
        if isinstance(cls, (tuple, TupV)):
            items = cls if isinstance(cls, tuple) else cls.items
            rs = [self.isinstance_(v, c) for c in items]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return disj(rs) if rs else False
        if isinstance(cls, OpaqueV) and "$instances" in cls.attrs:
            return cls.attrs["$instances"](v)
        if isinstance(cls, OpaqueV) and "$isinstance" in cls.attrs:
            return cls.attrs["$isinstance"](v)
        if not isinstance(cls, type):
            raise Unsupported(f"isinstance of {cls!r}")
        if isinstance(v, UV):
            return self.u_isinstance(v, cls)
        if isinstance(v, OpaqueV) and "$isinstance" in v.attrs:
            return v.attrs["$isinstance"](cls)
        if isinstance(v, RecV) and "$isinstance" in v.fields:
            r = v.fields["$isinstance"](cls)
            if r is not None:
                return r
        if isinstance(v, LazyV):
            return issubclass(types.GeneratorType, cls)
        if isinstance(v, Val):
            c = v.cls
            return isinstance(c, type) and issubclass(c, cls)
        return isinstance(v, cls)

    def u_isinstance(self, v, cls):
        import pymantic.primitives as P
        n = cls.__name__
        if cls is P.NamedNode:
            return T.isNN(v.e)
        if cls is P.BlankNode:
            return T.isBN(v.e)
        if cls is P.Literal:
            return T.isLit(v.e)
        if cls is str:
            return disj([T.isStr(v.e), T.isNN(v.e)])
        if cls is tuple:
            return z3.Function("isTuple", U, BOOL)(v.e) if False else T.isLit(v.e)
        if cls in (P.Triple, P.Quad, set, frozenset, list, dict, bytes, type):
            return False
        h = getattr(self, "u_isinstance_hook", None)
        if h:
            r = h(self, v, cls)
            if r is not None:
                return r
        raise Unsupported(f"isinstance(unknown value, {n})")

    def getattr_(self, v, name):
        if isinstance(v, Poison):
            raise Unsupported("loop-carried value: " + v.why)
        if isinstance(v, Obj):
            if name in v.attrs:
                return v.attrs[name]
            if name == "__class__":
                return v.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            h = v.attrs.get("$getattr")
            if h:
                r = h(self, v, name)
                if r is not None:
                    return r
            m = self.class_lookup(v.cls, name)
            self.declared(v, name, m)
            if m is None:
                raise PyRaise(ExcV(AttributeError, (name,)))
            if isinstance(m, property):
                return self.call(m.fget, [v], {})
            return self.bind(m, v, v.cls)
        if isinstance(v, RecV):
            if name in v.fields:
                return v.fields[name]
            m = self.class_lookup(v.cls, name) if isinstance(v.cls, type) else None
            if m is None:
                if v.fields.get("$exact", True):
                    raise PyRaise(ExcV(AttributeError, (name,)))
                raise Unsupported(f"attribute {name} of {v!r}")
            if isinstance(m, property):
                return self.call(m.fget, [v], {})
            return self.bind(m, v, v.cls)
        if isinstance(v, OpaqueV):
            if name in v.attrs:
                a = v.attrs[name]
                return a(self) if callable(a) and not isinstance(a, (Val, type, types.FunctionType)) else a
            if name in v.methods:
                f = v.methods[name]
                return BuiltinV(f"{v.name}.{name}", f)
            raise Unsupported(f"attribute {name} of {v}")
        if isinstance(v, TupV):
            m = self.class_lookup(v.cls, name)
            if isinstance(m, property) and isinstance(m.fget, operator.itemgetter):
                return v.items[self.itemgetter_index(m.fget, len(v.items))]
            if isinstance(m, property):
                return self.call(m.fget, [v], {})
            if m is None:
                raise PyRaise(ExcV(AttributeError, (name,)))
            if isinstance(m, (types.FunctionType, classmethod, staticmethod)):
                return self.bind(m, v, v.cls)
            if isinstance(m, (types.MethodDescriptorType, types.WrapperDescriptorType)):
                from . import model
                return model.method(self, v, name)
            return m
        if isinstance(v, UV):
            return self.u_getattr(v, name)
        if isinstance(v, ExcV):
            if name == "args":
                return TupV(tuple, v.args)
            raise Unsupported(f"exception attribute {name}")
        if isinstance(v, Val):
            if isinstance(v, (DictV, MapV)) and name in v.attrs:
                return v.attrs[name]
            c = getattr(v, "cls", None)
            if isinstance(v, StrV) and name in v.__dict__.get("attrs", {}):
                return v.attrs[name]
            if isinstance(c, type) and c.__module__.startswith("pymantic"):
                m = self.class_lookup(c, name)
                if isinstance(m, property):
                    return self.call(m.fget, [v], {})
                if isinstance(m, (types.FunctionType, classmethod, staticmethod)):
                    return self.bind(m, v, c)
                if m is not None and not isinstance(m, (types.MethodDescriptorType, types.WrapperDescriptorType)):
                    return m
            from . import model
            return model.method(self, v, name)
        if isinstance(v, type):
            ov = getattr(self, "class_attrs", None)
            if ov and (v, name) in ov:
                return ov[v, name]
            for c in v.__mro__:
                if name in c.__dict__:
                    m = c.__dict__[name]
                    if isinstance(m, classmethod):
                        return BoundV(m.__func__, v)
                    if isinstance(m, staticmethod):
                        return m.__func__
                    if isinstance(m, property):
                        return m
                    why = state.check_class_attr(name, m, v) if not isinstance(m, types.FunctionType) and str(v.__module__).startswith("pymantic") else None
                    if why:
                        raise Unsupported(why)
                    return m if isinstance(m, types.FunctionType) else getattr(v, name)
            try:
                return getattr(v, name)
            except AttributeError:
                raise PyRaise(ExcV(AttributeError, (name,)))
        # concrete python object
        from . import model
        cls_m = self.class_lookup(type(v), name)
        if type(v).__module__.startswith("pymantic"):
            if isinstance(cls_m, property):
                return self.call(cls_m.fget, [v], {})
            if isinstance(cls_m, (types.FunctionType, classmethod, staticmethod)) and name not in getattr(v, "__dict__", {}):
                return self.bind(cls_m, v, type(v))
        mm = model.concrete_method(self, v, name)
        if mm is not None:
            return mm
        try:
            return getattr(v, name)
        except AttributeError:
            raise PyRaise(ExcV(AttributeError, (name,)))

    def declared(self, v, name, m=None):
        """an attribute of an object given by its contract, or of a class, that the program assigns but no contract describes"""
        if m is not None and not (isinstance(m, types.FunctionType) or isinstance(m, (property, classmethod, staticmethod))):
            why = state.check_class_attr(name, m, v.cls)
            if why:
                raise Unsupported(why)
        if name in state.info().stored and not getattr(v, "created", False) and not isinstance(m, (property, types.FunctionType)) \
                and (not hasattr(v, "loop_diff") or name not in getattr(v, "described", {name})):
            raise Unsupported(f"attribute {name} of {v!r} is outside the state the contract describes")

    def itemgetter_index(self, ig, n):
        return ig(list(range(n)))

    def u_getattr(self, v, name):
        h = getattr(self, "u_getattr_hook", None)
        if h:
            r = h(self, v, name)
            if r is not None:
                return r
        if name in ("language", "datatype"):
            if self.decide(T.isLit(v.e)):
                return UV((T.lang if name == "language" else T.dt)(v.e))
            raise PyRaise(ExcV(AttributeError, (name,)))
        if name == "value":
            if self.decide(T.isLit(v.e)):
                return UV(T.litval(v.e))
            if self.decide(T.isNN(v.e)):
                return v
            raise Unsupported("value of an unknown term")
        if name == "interfaceName":
            if self.decide(T.isLit(v.e)):
                return "Literal"
            if self.decide(T.isNN(v.e)):
                return "NamedNode"
            if self.decide(T.isBN(v.e)):
                return "BlankNode"
            raise PyRaise(ExcV(AttributeError, (name,)))
        if name in STR_METHODS:
            if self.decide(disj([T.isStr(v.e), T.isNN(v.e)])):
                from . import model
                return model.method(self, sv(T.strOf(v.e)), name)
            raise PyRaise(ExcV(AttributeError, (name,)))
        raise Unsupported(f"attribute {name} of an unknown value")

    def hasattr_(self, v, name):
        if isinstance(v, UV):
            if name in ("language", "datatype"):
                return T.isLit(v.e)
            if name == "graph":
                return False
        if isinstance(v, OpaqueV) and "$hasattr" in v.attrs:
            return v.attrs["$hasattr"](name)
        if isinstance(v, TupV) and isinstance(v.cls, type):
            return self.class_lookup(v.cls, name) is not None
        if isinstance(v, (DictV, MapV)):
            if name in v.attrs:
                return v.attrs[name] if False else True
            h = v.attrs.get("$hasattr")
            if h is not None:
                return h(name)
            return self.class_lookup(v.cls, name) is not None
        if isinstance(v, Obj):
            h = v.attrs.get("$hasattr")
            if h is not None:
                return h(name)
            if name in v.attrs:
                return True
            m = self.class_lookup(v.cls, name)
            self.declared(v, name, m)
            return m is not None
        if isinstance(v, (RecV, StrV)):
            return name in getattr(v, "fields", {}) or self.class_lookup(v.cls, name) is not None
        if isinstance(v, Val):
            raise Unsupported(f"hasattr({v!r}, {name})")
        return hasattr(v, name)

    def setattr_(self, v, name, val):
        if isinstance(v, Obj):
            h = v.attrs.get("$setattr")
            if h:
                if h(self, v, name, val):
                    return
            m = self.class_lookup(v.cls, name)
            if isinstance(m, property):
                if m.fset is None:
                    raise PyRaise(ExcV(AttributeError, (name,)))
                self.call(m.fset, [v, val], {})
                return
            if hasattr(v, "vc_setattr"):
                v.vc_setattr(self, name, val)
                return
            v.attrs[name] = val
            return
        if isinstance(v, (DictV, MapV)):
            v.attrs[name] = val
            return
        if hasattr(v, "vc_set"):
            v.vc_set(self, name, val)
            return
        raise Unsupported(f"setattr on {v!r}")

    def delattr_(self, v, name):
        if isinstance(v, Obj):
            if name not in v.attrs:
                raise PyRaise(ExcV(AttributeError, (name,)))
            v.attrs.pop(name)
            return
        raise Unsupported(f"delattr on {v!r}")

    # ---- calls --------------------------------------------------------------------------
    def func_of_real(self, f):
        path = f.__code__.co_filename
        tree, idx = module_ast(path)
        cands = idx.get((f.__code__.co_firstlineno, f.__name__), [])
        if not cands:
            raise Unsupported(f"no source for {f.__qualname__}")
        if len(cands) > 1:
            raise Unsupported(f"ambiguous source for {f.__qualname__}")
        env = None
        if f.__closure__:
            env = types.SimpleNamespace(locals={}, parent=None)
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    v = c.cell_contents
                    if isinstance(v, state.CONTAINERS) and n in state.info().mut_names:
                        raise Unsupported(f"closure variable {n} is changed by functions")
                    env.locals[n] = v
                except ValueError:
                    pass
        owner = env.locals.get("__class__") if env else None
        return FuncV(cands[0], env, f.__globals__, f.__qualname__, owner,
                     f.__defaults__ or (), f.__kwdefaults__ or {}, real=f)

    def call(self, f, args, kwargs):
        from . import model
        args = list(args)
        if isinstance(f, Poison):
            raise Unsupported("loop-carried callee")
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, BuiltinV):
            return f.fn(self, args, kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, OpaqueV):
            if f.call:
                return f.call(self, args, kwargs)
            raise Unsupported(f"call of {f}")
        if isinstance(f, Obj) or isinstance(f, RecV):
            m = self.class_lookup(f.cls, "__call__")
            if m is None:
                raise PyRaise(ExcV(TypeError))
            return self.call(self.bind(m, f, f.cls), args, kwargs)
        if isinstance(f, StrV):
            m = self.class_lookup(f.cls, "__call__")
            if m is None:
                raise PyRaise(ExcV(TypeError))
            return self.call(BoundV(m, f), args, kwargs)
        if isinstance(f, UV) and getattr(self, "u_call_hook", None):
            return self.u_call_hook(self, f, args, kwargs)
        if isinstance(f, Val):
            raise Unsupported(f"call of {f!r}")
        c = self.contracts.get(f) if self._hashable(f) else None
        if c is not None and f not in self.disabled:
            self.contracts_used.add(getattr(f, "__qualname__", str(f)))
            return c(self, args, kwargs)
        if isinstance(f, types.FunctionType):
            if f.__code__.co_filename.startswith(REPO):
                return self.call_func(self.func_of_real(f), args, kwargs)
            m = model.lookup(f)
            if m:
                return m(self, args, kwargs)
            if model.pure_concrete(f, args, kwargs):
                return self.call_concrete(f, args, kwargs)
            raise Unsupported(f"call of external {f.__module__}.{f.__qualname__}")
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        m = model.lookup(f)
        if m:
            return m(self, args, kwargs)
        if callable(f):
            tc = type(f)
            if tc.__module__.startswith("pymantic"):
                mm = self.class_lookup(tc, "__call__")
                return self.call(BoundV(mm, f), args, kwargs)
            if model.pure_concrete(f, args, kwargs):
                return self.call_concrete(f, args, kwargs)
            raise Unsupported(f"call of {f!r}")
        raise PyRaise(ExcV(TypeError))

    def _hashable(self, f):
        try:
            hash(f)
            return True
        except TypeError:
            return False

    def lower(self, v):
        """symbolic-but-concrete structures -> python values (or raise Unsupported)"""
        if isinstance(v, TupV):
            return tuple.__new__(v.cls, [self.lower(i) for i in v.items]) if v.cls is not tuple else tuple(self.lower(i) for i in v.items)
        if isinstance(v, ListV) and v.concrete():
            return [self.lower(o.elem) for o in v.items]
        if isinstance(v, SeqV) and all(isinstance(o, One) for o in v.segs):
            return [self.lower(o.elem) for o in v.segs]
        if isinstance(v, DictV):
            return {k: self.lower(x) for k, x in v.d.items()}
        if isinstance(v, StrV) and all(isinstance(p, str) for p in v.pieces):
            s = "".join(v.pieces)
            return s if v.cls is str else v.cls(s)
        if isinstance(v, (Val, FuncV)):
            raise Unsupported(f"not concrete: {v!r}")
        return v

    def call_concrete(self, f, args, kwargs):
        a = [self.lower(x) for x in args]
        k = {n: self.lower(x) for n, x in kwargs.items()}
        try:
            return f(*a, **k)
        except Exception as e:  # noqa
            raise PyRaise(ExcV(type(e), tuple(e.args)))

    def instantiate(self, cls, args, kwargs):
        from . import model
        m = model.lookup(cls)
        if m:
            return m(self, args, kwargs)
        if issubclass(cls, BaseException):
            return ExcV(cls, tuple(args))
        if not cls.__module__.startswith("pymantic"):
            if model.pure_concrete(cls, args, kwargs):
                return self.call_concrete(cls, args, kwargs)
            raise Unsupported(f"construct {cls}")
        new = self.class_lookup(cls, "__new__")
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType) and new.__code__.co_filename.startswith(REPO):
            obj = self.call(new, [cls] + args, kwargs)
        elif issubclass(cls, str):
            return model.make_str(self, cls, args)
        elif issubclass(cls, dict):
            obj = model.make_dict(self, cls, args, kwargs)
            return obj
        elif issubclass(cls, tuple):
            return TupV(cls, [s.elem for s in self.concrete_items(args[0])])
        else:
            obj = Obj(self, cls)
            obj.created = True
        init = self.class_lookup(cls, "__init__")
        if isinstance(init, types.FunctionType):
            self.call(init, [obj] + args, kwargs)
        elif init is object.__init__ and (args or kwargs) and not isinstance(new, types.FunctionType):
            raise PyRaise(ExcV(TypeError))
        return obj

    def concrete_items(self, v):
        segs = self.segments(v)
        if not all(isinstance(s, One) for s in segs):
            raise Unsupported("length of a sequence is unknown")
        return segs

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        kw = dict(kwargs)
        if len(args) > len(names) and not a.vararg:
            raise PyRaise(ExcV(TypeError))
        for n, v in zip(names, args):
            loc[n] = v
        if a.vararg:
            loc[a.vararg.arg] = TupV(tuple, args[len(names):])
        for n in names:
            if n in kw:
                if n in loc:
                    raise PyRaise(ExcV(TypeError))
                loc[n] = kw.pop(n)
        d = f.defaults
        for n, v in zip(names[len(names) - len(d):], d):
            if n not in loc and isinstance(v, state.CONTAINERS) and n in state.info().mut_names:
                raise Unsupported(f"default value of {n} is changed by functions")
            loc.setdefault(n, v)
        for x in a.kwonlyargs:
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                loc[x.arg] = f.kwdefaults[x.arg]
            else:
                raise PyRaise(ExcV(TypeError))
        if a.kwarg:
            loc[a.kwarg.arg] = DictV(self, kw)
        elif kw:
            raise PyRaise(ExcV(TypeError))
        for n in names:
            if n not in loc:
                raise PyRaise(ExcV(TypeError))
        return loc

    def call_func(self, f, args, kwargs):
        self.functions_run.add(f.name)
        if f.name not in self.digests:
            self.digests[f.name] = digest(f.node)
        loc = self.bind_args(f, args, kwargs)
        if is_generator(f.node):
            deps = []
            for v in args:
                deps += self.deps(v)
            lz = LazyV(lambda: self.run_generator(f, loc, lz), f.name, tuple(deps))
            return lz
        h = getattr(self, "rec_hook", None)
        if h is not None:
            if any(n is f.node for n in self.active):
                return h(self, f, loc)
            self.active = self.active + [f.node]
        fr = Frame(self, f.glob, f, f.env)
        fr.locals = loc
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                self.block(f.node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            if h is not None:
                self.active = self.active[:-1]

    def run_generator(self, f, loc, lz=None):
        fr = Frame(self, f.glob, f, f.env)
        fr.locals = dict(loc)
        fr.out = ListV(self)
        self.depth += 1
        try:
            try:
                self.block(f.node.body, fr)
            except ReturnEx as r:
                if lz is not None:
                    lz.ret = r.v
            return list(fr.out.items)
        finally:
            self.depth -= 1

    # ---- statements -----------------------------------------------------------------------
    def block(self, stmts, fr):
        for s in stmts:
            self.st(s, fr)

    def st(self, s, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fr)

    def st_Expr(self, s, fr):
        self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Assert(self, s, fr):
        if not self.test(self.ev(s.test, fr)):
            raise PyRaise(ExcV(AssertionError))

    def st_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value else None)

    def st_Break(self, s, fr):
        raise BreakEx()

    def st_Continue(self, s, fr):
        raise ContinueEx()

    def st_Global(self, s, fr):
        raise Unsupported("global statement")

    def st_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def st_Import(self, s, fr):
        import importlib
        for a in s.names:
            mod = importlib.import_module(a.name)
            if a.asname:
                fr.locals[a.asname] = mod
            else:
                fr.locals[a.name.split(".")[0]] = importlib.import_module(a.name.split(".")[0])

    def st_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.glob.get("__package__") if s.level else None
        mod = importlib.import_module("." * s.level + (s.module or ""), pkg)
        for a in s.names:
            fr.locals[a.asname or a.name] = getattr(mod, a.name)

    def st_If(self, s, fr):
        if self.test(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load(t.id, fr)
            self.store(t.id, self.inplace(s.op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr_(o, t.attr, self.inplace(s.op, self.getattr_(o, t.attr), self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            from . import model
            old = model.getitem(self, o, k)
            model.setitem(self, o, k, self.inplace(s.op, old, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, old, v):
        from . import model
        if isinstance(old, ListV) and isinstance(op, ast.Add):
            old.items = old.items + tuple(self.segments(v))
            return old
        if isinstance(old, SetV) and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and old.cls is set:
            nm = {ast.BitOr: "update", ast.BitAnd: "intersection_update", ast.Sub: "difference_update"}[type(op)]
            self.call(model.method(self, old, nm), [v], {})
            return old
        return self.binop(op, old, v)

    def st_Delete(self, s, fr):
        from . import model
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                model.delitem(self, self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr_(self.ev(t.value, fr), t.attr)
            elif isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            else:
                raise Unsupported("delete target")

    def st_FunctionDef(self, s, fr):
        d = [self.ev(x, fr) for x in s.args.defaults]
        kd = {a.arg: self.ev(x, fr) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        f = FuncV(s, fr, fr.glob, s.name, getattr(fr.func, "owner", None), tuple(d), kd)
        for dec in reversed(s.decorator_list):
            f = self.call(self.ev(dec, fr), [f], {})
        fr.locals[s.name] = f

    def st_Raise(self, s, fr):
        if s.exc is None:
            if not self.cur_exc:
                raise PyRaise(ExcV(RuntimeError))
            raise PyRaise(self.cur_exc[-1])
        e = self.ev(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = ExcV(e, ())
        if not isinstance(e, ExcV):
            raise Unsupported("raise of a non exception")
        raise PyRaise(e)

    def st_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as p:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.ev(h.type, fr)
                        ts = t.items if isinstance(t, TupV) else (t if isinstance(t, tuple) else (t,))
                        match = any(issubclass(p.exc.cls, x) for x in ts)
                    if match:
                        if h.name:
                            fr.locals[h.name] = p.exc
                        self.cur_exc.append(p.exc)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.cur_exc.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def st_With(self, s, fr):
        if len(s.items) != 1:
            raise Unsupported("with of several items")
        it = s.items[0]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, OpaqueV) and cm.attrs.get("$cm"):
            if it.optional_vars:
                self.assign(it.optional_vars, cm, fr)
            self.block(s.body, fr)
            return
        raise Unsupported("with statement")

    def st_While(self, s, fr):
        n = 0
        while True:
            h = getattr(self, "while_hook", None)
            if h is not None and n == 0 and isinstance(s.test, ast.Constant) and s.test.value:
                return h(self, s, fr)
            c = self.truth(self.ev(s.test, fr))
            if not isinstance(c, bool):
                c0 = z3.simplify(c)
                if z3.is_true(c0):
                    c = True
                elif z3.is_false(c0):
                    c = False
                else:
                    if h is not None and n == 0:
                        return h(self, s, fr)
                    c = self.decide(c0)
            if not c:
                break
            n += 1
            if n > 40:
                raise Unsupported("unbounded while loop")
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(s.orelse, fr)

    def st_For(self, s, fr):
        from . import loops
        it = self.ev(s.iter, fr)
        try:
            loops.for_loop(self, it, fr, lambda v: self.assign(s.target, v, fr),
                           lambda: self.block(s.body, fr), stored_names([s.target] + s.body), loaded_names(s.body))
        except BreakEx:
            return
        self.block(s.orelse, fr)

    def assign(self, t, v, fr):
        from . import model
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            model.setitem(self, o, self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = [x.elem for x in self.concrete_items(v)]
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise(ExcV(ValueError))
                vals = items[:i] + [ListV(self, [One(x) for x in items[i:len(items) - after]])] + items[len(items) - after:]
                for a, b in zip(t.elts, vals):
                    self.assign(a.value if isinstance(a, ast.Starred) else a, b, fr)
                return
            if len(items) != len(t.elts):
                raise PyRaise(ExcV(ValueError))
            for a, b in zip(t.elts, items):
                self.assign(a, b, fr)
        else:
            raise Unsupported("assignment target")

    def store(self, name, v, fr):
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.locals:
                    p.locals[name] = v
                    return
                p = p.parent
        fr.locals[name] = v

    def load(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported("loop-carried value: " + v.why)
                return v
            f = f.parent
        if name in fr.glob:
            v = fr.glob[name]
            why = state.check_global(name, v, fr.glob)
            if why:
                raise Unsupported(why)
            return v
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(ExcV(NameError, (name,)))

    # ---- expressions ------------------------------------------------------------------------
    def ev(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def ev_Constant(self, e, fr):
        return e.value

    def ev_Name(self, e, fr):
        return self.load(e.id, fr)

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ev_Attribute(self, e, fr):
        return self.getattr_(self.ev(e.value, fr), e.attr)

    def ev_Subscript(self, e, fr):
        from . import model
        return model.getitem(self, self.ev(e.value, fr), self.ev(e.slice, fr))

    def ev_Slice(self, e, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def ev_Tuple(self, e, fr):
        return TupV(tuple, self.star_items(e.elts, fr))

    def star_items(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += [o.elem for o in self.concrete_items(self.ev(x.value, fr))]
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_List(self, e, fr):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items += self.segments(self.ev(x.value, fr))
            else:
                items.append(One(self.ev(x, fr)))
        return ListV(self, items)

    def ev_Set(self, e, fr):
        from . import model
        return model.make_set(self, [One(self.ev(x, fr)) for x in e.elts], set)

    def ev_Dict(self, e, fr):
        from . import model
        d = DictV(self)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)
                model.dict_update(self, d, src)
            else:
                kk = self.ev(k, fr)
                model.setitem(self, d, kk, self.ev(v, fr))
        return d

    def ev_JoinedStr(self, e, fr):
        from . import strings
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, fr)
                if x.format_spec is not None:
                    spec = self.ev(x.format_spec, fr)
                    parts.append(strings.format_spec(self, v, spec))
                elif x.conversion == 114:
                    parts.append(strings.repr_(self, v))
                else:
                    parts.append(strings.str_(self, v))
        return strings.concat(self, parts)

    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.test(v)
            if isand and not t:
                return v if not isinstance(v, BoolV) else False
            if not isand and t:
                return v if not isinstance(v, BoolV) else True

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else BoolV(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, IntV):
                return IntV(-v.e)
            if not isinstance(v, Val):
                return -v
        if isinstance(e.op, ast.UAdd) and not isinstance(v, Val):
            return +v
        raise Unsupported("unary operator")

    def ev_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        from . import strings, model
        return model.binop(self, op, a, b)

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c if isinstance(c, (bool, Val)) else BoolV(c)
            if i == len(e.ops) - 1:
                return c if isinstance(c, (bool, Val)) else BoolV(c)
            if not self.decide(c):
                return False
            left = right

    def compare(self, op, a, b):
        from . import model
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("loop-carried value")
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            r = self.identical(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, (Obj, RecV)):
                m = self.class_lookup(a.cls, "__ne__")
                if isinstance(m, types.FunctionType):
                    r = self.call(BoundV(m, a), [b], {})
                    if r is NotImplemented:
                        return True
                    return self.truth(r)
            r = self.equal(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.In):
            return model.contains(self, b, a)
        if isinstance(op, ast.NotIn):
            r = model.contains(self, b, a)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        return model.order(self, op, a, b)

    def ev_IfExp(self, e, fr):
        if self.test(self.ev(e.test, fr)):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def ev_Lambda(self, e, fr):
        d = [self.ev(x, fr) for x in e.args.defaults]
        return FuncV(e, fr, fr.glob, "<lambda>", getattr(fr.func, "owner", None), tuple(d))

    def ev_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.make_super(e, fr)
        f = self.ev(e.func, fr)
        args = self.star_items(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.ev(k.value, fr)
                if isinstance(m, DictV):
                    kwargs.update(m.d)
                elif isinstance(m, dict):
                    kwargs.update(m)
                elif isinstance(m, OpaqueV) and "$kwargs" in m.attrs:
                    kwargs["**"] = m
                else:
                    raise Unsupported("** of an unknown mapping")
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs)

    def make_super(self, e, fr):
        if e.args:
            cls = self.ev(e.args[0], fr)
            obj = self.ev(e.args[1], fr)
        else:
            f = fr
            cls = None
            while f is not None and cls is None:
                cls = getattr(getattr(f, "func", None), "owner", None) or f.locals.get("__class__")
                if cls is None:
                    f = f.parent
            if cls is None:
                raise Unsupported("super() outside a method")
            obj = list(f.locals.values())[0]
        return SuperV(cls, obj)

    def comp(self, e, fr, make):
        """run a comprehension; make(frame) evaluates the element and appends to frame.out"""
        from . import loops
        f = Frame(self, fr.glob, fr.func, fr)
        f.out = ListV(self)

        def gen(i):
            if i == len(e.generators):
                make(f)
                return
            g = e.generators[i]
            it = self.ev(g.iter, f if i else fr)

            def body():
                for c in g.ifs:
                    if not self.test(self.ev(c, f)):
                        return
                gen(i + 1)
            loops.for_loop(self, it, f, lambda v: self.assign(g.target, v, f), body, stored_names([g.target]))
        gen(0)
        return f.out.items

    def ev_ListComp(self, e, fr):
        items = self.comp(e, fr, lambda f: self.emit(f, self.ev(e.elt, f)))
        return ListV(self, items)

    def ev_SetComp(self, e, fr):
        from . import model
        items = self.comp(e, fr, lambda f: self.emit(f, self.ev(e.elt, f)))
        return model.make_set(self, items, set)

    def ev_GeneratorExp(self, e, fr):
        # the first iterable is evaluated now, the rest lazily
        first = self.ev(e.generators[0].iter, fr)
        deps = self.deps(first)
        g0 = e.generators[0]

        def thunk():
            from . import loops
            f = Frame(self, fr.glob, fr.func, fr)
            f.out = ListV(self)

            def gen(i):
                if i == len(e.generators):
                    self.emit(f, self.ev(e.elt, f))
                    return
                g = e.generators[i]
                it = first if i == 0 else self.ev(g.iter, f)

                def body():
                    for c in g.ifs:
                        if not self.test(self.ev(c, f)):
                            return
                    gen(i + 1)
                loops.for_loop(self, it, f, lambda v: self.assign(g.target, v, f), body, stored_names([g.target]))
            gen(0)
            return list(f.out.items)
        return LazyV(thunk, "genexp", deps)

    def ev_DictComp(self, e, fr):
        from . import model
        items = self.comp(e, fr, lambda f: self.emit(f, TupV(tuple, [self.ev(e.key, f), self.ev(e.value, f)])))
        return model.dict_from_pairs(self, items)

    def emit(self, fr, v):
        fr.out.items = fr.out.items + (One(v),)

    def ev_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value else None
        self.emit(fr, v)
        return None

    def ev_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        if isinstance(v, LazyV) and v.done:
            return None
        segs = self.segments(v)
        fr.out.items = fr.out.items + tuple(segs)
        return getattr(v, "ret", None) if isinstance(v, LazyV) else None

    def ev_Starred(self, e, fr):
        raise Unsupported("starred expression")


class SliceV(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SuperV(Val):
    def __init__(self, cls_, obj):
        self.start, self.obj = cls_, obj


STR_METHODS = {"partition", "rpartition", "startswith", "endswith", "replace", "split", "lower", "upper", "strip",
               "encode", "join", "format", "find", "index", "rstrip", "lstrip", "casefold", "count", "rsplit",
               "removeprefix", "removesuffix", "isalpha"}

_old_getattr = Engine.getattr_


def _getattr_super(self, v, name):
    if isinstance(v, SuperV):
        obj = v.obj
        ocls = obj if isinstance(obj, type) else obj.cls
        mro = ocls.__mro__
        i = mro.index(v.start)
        for c in mro[i + 1:]:
            if name in c.__dict__:
                m = c.__dict__[name]
                if isinstance(m, property):
                    return self.call(m.fget, [obj], {})
                if isinstance(m, (types.FunctionType, classmethod, staticmethod)):
                    return self.bind(m, obj, ocls)
                if name == "__init__":
                    return BuiltinV("object.__init__", lambda E, a, k: None)
                if isinstance(m, staticmethod):
                    return m.__func__
                from . import model
                return model.method(self, obj, name)
        raise PyRaise(ExcV(AttributeError, (name,)))
    return _old_getattr(self, v, name)


Engine.getattr_ = _getattr_super

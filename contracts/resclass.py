"""C14: Resource.new, erase, copy, is_a, in_graph, as_, classify, register_class.  C15: List."""
from .resource import *
from .resource import FALSE, TRUE

SUB = z3.Function("isSubclass", U, U, z3.BoolSort())
NAMEOF = z3.Function("classname", U, STR)
RTYPE = RES(T.ofStr(zstr("rdf:type")))


INST = z3.Function("instance", U, U, U, U)
INODE = z3.Function("nodeOfInstance", U, U)


def inst_axiom(E):
    a, b, c = (z3.FreshConst(U, "i") for _ in range(3))
    E.assume(T.forall([a, b, c], INODE(INST(a, b, c)) == c, patterns=[INST(a, b, c)]))


def iterm(E, v):
    return INST(E.uterm(v.fields["$class"]), E.uterm(v.fields["graph"]), E.uterm(v.fields["subject"]))


def instance(cls, g, subj):
    return RecV(RD.Resource, {"graph": g, "subject": subj, "$class": cls, "$exact": False, "$ufun": iterm})


def node_of(E, v):
    """the node a resource constructor keeps for what it is given (proved in resource_init_task)"""
    if isinstance(v, Obj) and v.cls is P.BlankNode:
        return v
    e = E.uterm(v)
    E.oblige("a resource is made for a node or an IRI string", disj([T.isNN(e), T.isBN(e), T.isStr(e)]))
    return UV(e)


def a_type(E, M):
    """an arbitrary Resource class whose required types are the set M"""
    def make(E_, args, kw):
        v = dict(zip(("graph", "subject"), args))
        v.update(kw)
        return instance(c, v["graph"], node_of(E_, v["subject"]))

    def classify(E_, args, kw):
        return c_classify(E_, [c] + list(args), kw)
    c = OpaqueV("SomeClass", RD.MetaResource, {"$truth": True, "rdf_classes": SetV(E, U, lambda x: M(x), cls=frozenset, name="rdf_classes")},
                call=make, methods={"resolve": lambda E_, a, kw: c_resolve(E_, [c] + list(a), kw), "classify": classify})
    return c


def typed_state(E):
    st = St(E)
    M = z3.Function("required_type", U, z3.BoolSort())
    x = z3.FreshConst(U, "c")
    E.assume(T.forall([x], z3.Implies(M(x), conj([T.isNN(x), x != NONE, z3.Not(T.isLit(x)), z3.Not(T.isBN(x))])), patterns=[M(x)]))
    E.assume(conj([T.isNN(RTYPE), z3.Not(T.isLit(RTYPE)), z3.Not(T.isBN(RTYPE)), RTYPE != NONE]))
    st.M = M
    st.cls = a_type(E, M)
    st.r.attrs["rdf_classes"] = st.cls.attrs["rdf_classes"]
    return st


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def bound(f, c):
    return BoundV(real(f), c)


def is_instance_for(E, nm, v, cls, g, node):
    ok = isinstance(v, RecV) and v.fields.get("$class") is cls and v.fields.get("graph") is g
    E.oblige(f"{nm}: an instance of the class in the same graph", z3.BoolVal(bool(ok)))
    if ok:
        E.oblige(f"{nm}: for the given subject", E.uterm(v.fields["subject"]) == node)


def new_task(kind):
    def thunk(E):
        st = typed_state(E)
        nm = f"Resource.new[{kind}]"
        n = z3.Const("given", U)
        args = [st.g]
        if kind == "blank":
            pass
        elif kind == "node":
            E.assume(conj([disj([T.isNN(n), T.isBN(n)]), n != NONE, z3.Not(T.isLit(n)), z3.Not(ISRES(n))]))
            args.append(UV(n))
        else:
            s = z3.Const("iri", STR)
            args.append(sv(s))
            n = T.ofStr(s)
        got = outcome(E, lambda: E.call(bound(RD.Resource.new, st.cls), args, {}))
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        v = got[1]
        if kind == "blank":
            ok = isinstance(v, RecV) and isinstance(v.fields.get("subject"), Obj) and v.fields["subject"].cls is P.BlankNode
            E.oblige(f"{nm}: the subject is a blank node created by the call", z3.BoolVal(bool(ok)))
            if not ok:
                return
            n = E.uterm(v.fields["subject"])
        is_instance_for(E, nm, v, st.cls, st.g, n)
        x = E.fresh_const("x", T3)
        E.oblige(f"{nm}: adds exactly the type triples", view(st.g).mem(x) == disj([st.mem0(x), conj([S(x) == n, PR(x) == RTYPE, st.M(OB(x))])]))
    return Task(f"Resource.new[{kind}]", thunk, ["Resource.new"])


def erase_task():
    def thunk(E):
        st = typed_state(E)
        got = outcome(E, lambda: E.call(E.getattr_(st.r, "erase"), [], {}))
        E.oblige("Resource.erase: does not raise", z3.BoolVal(got[0] == "ok"))
        x = E.fresh_const("x", T3)
        E.oblige("Resource.erase: removes exactly the triples of its subject", view(st.g).mem(x) == conj([st.mem0(x), S(x) != st.s]))
    return Task("Resource.erase", thunk, ["Resource.erase"])


def copy_task(kind):
    def thunk(E):
        st = typed_state(E)
        nm = f"Resource.copy[{kind}]"
        n = z3.Const("target", U)
        if kind == "node":
            E.assume(conj([disj([T.isNN(n), T.isBN(n)]), n != NONE, z3.Not(T.isLit(n)), z3.Not(ISRES(n))]))
            a = UV(n)
        else:
            s = z3.Const("iri", STR)
            a, n = sv(s), T.ofStr(s)
        got = outcome(E, lambda: E.call(E.getattr_(st.r, "copy"), [a], {}))
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        v = got[1]
        ok = isinstance(v, RecV) and v.fields.get("graph") is st.g
        E.oblige(f"{nm}: gives the classified target", z3.BoolVal(bool(ok)))
        if ok:
            E.oblige(f"{nm}: for the target subject", E.uterm(v.fields["subject"]) == n)
        x = E.fresh_const("x", T3)
        E.oblige(f"{nm}: adds exactly one copy of each of its triples",
                 view(st.g).mem(x) == disj([st.mem0(x), conj([S(x) == n, st.mem0(mk(T3, st.s, PR(x), OB(x)))])]))
    return Task(f"Resource.copy[{kind}]", thunk, ["Resource.copy"])


def is_a_task():
    def thunk(E):
        st = typed_state(E)
        got = outcome(E, lambda: zb(E.truth(E.call(E.getattr_(st.r, "is_a"), [], {}))))
        E.oblige("Resource.is_a: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        c = z3.FreshConst(U, "c")
        want = T.forall([c], z3.Implies(st.M(c), st.mem0(mk(T3, st.s, RTYPE, c))), patterns=[st.M(c)])
        E.oblige("Resource.is_a: true only if every required type is present", z3.Implies(got[1], want))
        E.oblige("Resource.is_a: true if every required type is present", z3.Implies(want, got[1]))
        same_graph(E, "Resource.is_a", st)
    return Task("Resource.is_a", thunk, ["Resource.is_a"])


def in_graph_task():
    def thunk(E):
        st = typed_state(E)
        nm = "Resource.in_graph"
        inst_axiom(E)
        c0 = z3.Const("a_type", U)
        E.assume(st.M(c0))     # a class with required types
        got = outcome(E, lambda: E.segments(E.call(bound(RD.Resource.in_graph, st.cls), [st.g], {})))
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        k, gt = E.uterm(st.cls), E.uterm(st.g)
        c = z3.FreshConst(U, "c")
        compare_collection(E, f"{nm}: instances of the class for the subjects having all its types", SeqV(got[1]),
                           lambda e: conj([e == INST(k, gt, INODE(e)), T.forall([c], z3.Implies(st.M(c), st.mem0(mk(T3, INODE(e), RTYPE, c))), patterns=[st.M(c)])]), U)
        same_graph(E, nm, st)
    return Task("Resource.in_graph", thunk, ["Resource.in_graph"])


def as_task():
    def thunk(E):
        st = typed_state(E)
        got = outcome(E, lambda: E.call(E.getattr_(st.r, "as_"), [st.cls], {}))
        E.oblige("Resource.as_: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            is_instance_for(E, "Resource.as_", got[1], st.cls, st.g, st.s)
        same_graph(E, "Resource.as_", st)
    return Task("Resource.as_", thunk, ["Resource.as_"])


def init_task(kind):
    def thunk(E):
        st = typed_state(E)
        n = z3.Const("given", U)
        if kind == "node":
            E.assume(conj([disj([T.isNN(n), T.isBN(n)]), n != NONE, z3.Not(T.isLit(n))]))
            a = UV(n)
        else:
            s = z3.Const("iri", STR)
            a, n = sv(s), T.ofStr(s)
        got = outcome(E, lambda: E.call(RD.Resource, [st.g, a], {}))
        nm = f"Resource.__init__[{kind}]"
        ok = got[0] == "ok" and isinstance(got[1], Obj) and got[1].attrs.get("graph") is st.g
        E.oblige(f"{nm}: keeps the graph", z3.BoolVal(bool(ok)))
        if ok:
            v = got[1].attrs["subject"]
            E.oblige(f"{nm}: keeps the subject as a node", conj([E.uterm(v) == n, z3.BoolVal(isinstance(v, UV) or getattr(v, "cls", None) is P.NamedNode)]))
    return Task(f"Resource.__init__[{kind}]", thunk, ["Resource.__init__"])


def c14_tasks():
    return [init_task("node"), init_task("string"), new_task("blank"), new_task("node"), new_task("string"), erase_task(), copy_task("node"), copy_task("string"),
            is_a_task(), in_graph_task(), as_task()]


# ---- classify -------------------------------------------------------------------------------------

REQ = z3.Function("requires_type", U, U, z3.BoolSort())     # rdf_classes of a class


def classify_task():
    """by body, over an arbitrary registry of classes; the combined class by the contract of type.__new__"""
    def thunk(E):
        E.disabled.add(CLASSIFY)
        st = typed_state(E)
        nm = "Resource.classify"
        inst_axiom(E)
        n = st.s
        has, get = z3.Function("is_registered", U, z3.BoolSort()), z3.Function("registered_class", U, U)
        a, b, c = (z3.FreshConst(U, "k") for _ in range(3))
        E.assume(T.forall([a, b, c], z3.Implies(conj([SUB(a, b), SUB(b, c)]), SUB(a, c)), patterns=[(SUB(a, b), SUB(b, c))]))
        E.assume(T.forall([a], SUB(a, a), patterns=[SUB(a, a)]))
        E.assume(T.forall([a, b], z3.Implies(conj([SUB(a, b), SUB(b, a)]), a == b), patterns=[(SUB(a, b), SUB(b, a))]))
        types_ = lambda t: st.mem0(mk(T3, n, RTYPE, t))
        t = z3.FreshConst(U, "t")
        REG = z3.Function("registered", U, z3.BoolSort())       # ghost: the classes registered for the node's types
        E.assume(T.forall([t], z3.Implies(conj([types_(t), has(t)]), REG(get(t))), patterns=[get(t)]))
        E.assume(T.forall([a], z3.Implies(REG(a), ex([t], conj([types_(t), has(t), get(t) == a]))), patterns=[REG(a)]))
        minimal = lambda x: conj([REG(x), z3.Not(ex([b], conj([REG(b), b != x, SUB(b, x)])))])
        LEAF = z3.Function("below", U, U)
        # finite partial order: below every registered class there is a minimal one
        E.assume(T.forall([a], z3.Implies(REG(a), conj([minimal(LEAF(a)), SUB(LEAF(a), a)])), patterns=[REG(a)]))
        E.assume(T.forall([a], z3.Implies(REG(a), a != NONE), patterns=[REG(a)]))
        classes = MapV(E, U, U, lambda k: has(k), lambda k: get(k), name="_classes")
        made = []
        combos = []

        def meta_new(E_, args, kw):
            """type.__new__ through MetaResource.__new__ (proved in metaresource_task): a new class deriving from the bases"""
            bases = args[2]
            k = Obj(E_, RD.MetaResource, {"$truth": True}, name="combined class")
            kt = E_.uterm(k)
            for s in E_.segments(bases):
                if isinstance(s, One):
                    E_.assume(SUB(kt, E_.uterm(s.elem)))
                else:
                    E_.assume(T.forall(s.bs, z3.Implies(s.guard, SUB(kt, E_.uterm(s.elem)))))
            made.append((k, bases))
            return k
        meta = OpaqueV("MetaResource", type, {"_classes": classes}, methods={"__new__": meta_new})
        cls = a_type(E, st.M)
        cls.attrs["_meta_resource"] = meta

        def ukey(E_, v):
            """a tuple of sets as a dictionary key: one term per tuple value"""
            for w, k in combos:
                if w is v:
                    return k
            k = E_.fresh_const("combination", U)
            E_.assume(conj([z3.Not(T.isNN(k)), z3.Not(T.isBN(k)), z3.Not(T.isLit(k)), k != NONE]))
            combos.append((v, k))
            sets = v.items if isinstance(v, TupV) else [v]
            if len(sets) == 2 and all(isinstance(s, SetV) for s in sets):
                # registry invariant: what is stored under (types, classes) requires the types and derives from the classes
                ts, cs = sets
                E_.assume(T.forall([t], z3.Implies(has(k), REQ(get(k), t) == ts.mem(t)), patterns=[REQ(get(k), t)]))
                E_.assume(T.forall([c], z3.Implies(conj([has(k), cs.mem(c)]), SUB(get(k), c)), patterns=[SUB(get(k), c)]))
            return k
        E.u_key_hook = ukey
        E.opaque_join = True      # the name of a combined class is of no consequence
        E.u_identity = True       # classes: identity is equality
        E.u_issubclass_hook = lambda E_, x, y: SUB(E_.uterm(x), E_.uterm(y))
        E.u_call_hook = lambda E_, f, args, kw: instance(f, args[0], node_of(E_, args[1]))
        old = E.u_getattr_hook
        E.u_getattr_hook = lambda E_, v, name: sv(NAMEOF(v.e)) if name == "__name__" else old(E_, v, name)
        E.contracts[RD.Resource] = lambda E_, args, kw: instance(RD.Resource, args[0], node_of(E_, args[1]))
        got = outcome(E, lambda: E.call(bound(RD.Resource.classify, cls), [st.g, UV(n)], {}))
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        v = got[1]
        ok = isinstance(v, RecV) and v.fields.get("graph") is st.g
        E.oblige(f"{nm}: gives a resource of the graph", z3.BoolVal(bool(ok)))
        same_graph(E, nm, st)
        if not ok:
            return
        E.oblige(f"{nm}: for the same subject", E.uterm(v.fields["subject"]) == n)
        k = v.fields["$class"]
        x = E.fresh_const("registered", U)
        if k is RD.Resource:
            E.oblige(f"{nm}: a plain Resource only when no class is registered for its types", z3.Not(REG(x)))
            return
        kt = E.uterm(k)
        E.oblige(f"{nm}: the class derives from every class registered for its types", z3.Implies(REG(x), SUB(kt, x)))
        if made:
            o = made[-1][0]
            rc = o.attrs.get("rdf_classes")
            ok = isinstance(rc, SetV)
            E.oblige(f"{nm}: a combined class requires types", z3.BoolVal(bool(ok)))
            if ok:
                y = E.fresh_const("type", U)
                E.oblige(f"{nm}: a combined class requires exactly the types it was made for", rc.mem(y) == types_(y))
            kk = [k for w, k in combos]
            E.oblige(f"{nm}: one combined class under one key", z3.BoolVal(len(made) == 1 and len(kk) == 1))
            if len(kk) == 1:
                E.oblige(f"{nm}: the combined class is registered under its combination", conj([classes.has(kk[0]), classes.get(kk[0]) == E.uterm(o)]))
                E.oblige(f"{nm}: no other registration changes", z3.Implies(y != kk[0], conj([classes.has(y) == has(y), classes.get(y) == get(y)])))
        else:
            y = E.fresh_const("type", U)
            E.oblige(f"{nm}: no registration changes", conj([classes.has(y) == has(y), classes.get(y) == get(y)]))
    return Task("Resource.classify", thunk, ["Resource.classify"])


def register_task():
    def thunk(E):
        has, get = z3.Function("is_registered", U, z3.BoolSort()), z3.Function("registered_class", U, U)
        reg = MapV(E, U, U, lambda k: has(k), lambda k: get(k), name="_classes")
        E.class_attrs = {(RD.MetaResource, "_classes"): reg}
        t = z3.Const("rdf_type", U)
        E.assume(conj([disj([T.isStr(t), T.isNN(t)]), t != NONE, z3.Not(T.isLit(t))]))
        k = Obj(E, RD.MetaResource, {"$truth": True}, name="the class")
        k.attrs["resolve"] = BuiltinV("resolve", lambda E_, a, kw: c_resolve(E_, [k] + list(a), kw))
        got = outcome(E, lambda: E.call(E.call(RD.register_class, [UV(t)], {}), [k], {}))
        nm = "register_class"
        E.oblige(f"{nm}: gives the class itself", z3.BoolVal(got[0] == "ok" and got[1] is k))
        y = E.fresh_const("type", U)
        E.oblige(f"{nm}: registers the class for its type only",
                 conj([reg.has(y) == disj([has(y), y == RES(t)]), reg.get(y) == z3.If(y == RES(t), E.uterm(k), get(y))]))
        rc = k.attrs.get("rdf_classes")
        ok = isinstance(rc, SetV)
        E.oblige(f"{nm}: the class requires types", z3.BoolVal(bool(ok)))
        if ok:
            E.oblige(f"{nm}: the class requires exactly that type", rc.mem(y) == (y == RES(t)))
    return Task("register_class", thunk, ["register_class", "register_class._register_class"])


def meta_task(nbases, own):
    """MetaResource.__new__: prefixes and scalars are inherited and extended; the class itself is made by type.__new__"""
    def thunk(E):
        from .curie import Maps, map_is
        bases, bm, bsc = [], [], []
        for i in range(nbases):
            m = Maps(E, f"base{i}", P.PrefixMap)
            f = z3.Function(f"base_scalar{i}", U, z3.BoolSort())
            sc = SetV(E, U, lambda x, f=f: f(x), cls=frozenset, name="scalars")
            b = OpaqueV(f"Base{i}", RD.MetaResource, {"$truth": True, "prefixes": m.v, "scalars": sc})
            b.attrs["$hasattr"] = lambda n: n in ("prefixes", "scalars")
            bases.append(b)
            bm.append(m)
            bsc.append(f)
        made = []
        d = {}
        om = Maps(E, "own", dict) if own else None
        OS = z3.Function("own_scalar", U, z3.BoolSort())
        CUR = z3.Function("parsed_curie", U, U)
        if own:
            d["prefixes"] = om.v
            d["scalars"] = SetV(E, U, lambda x: OS(x), cls=frozenset, name="own scalars")
        dct = DictV(E, dict(d))
        seen = []

        def parse(E_, a, kw):
            seen.append(a[1])
            return UV(CUR(E_.uterm(a[0])))
        E.contracts[P.parse_curie] = parse

        def empty_map(E_, a, kw):
            if a or kw:
                raise Unsupported("PrefixMap with initial bindings")
            return MapV(E_, STR, STR, lambda k: FALSE, lambda k: zstr(""), cls=P.PrefixMap, name="new prefixes")
        E.contracts[P.PrefixMap] = empty_map      # the constructor of dict, without arguments

        def type_new(E_, a, kw):
            made.append(a)
            return Obj(E_, RD.MetaResource, {"$truth": True}, name="new class")
        E.contracts[type.__new__] = type_new
        name = sv(z3.Const("name", STR))
        tb = TupV(tuple, bases)
        got = outcome(E, lambda: E.call(RD.MetaResource.__dict__["__new__"].__func__ if isinstance(RD.MetaResource.__dict__["__new__"], staticmethod) else RD.MetaResource.__dict__["__new__"],
                                        [RD.MetaResource, name, tb, dct], {}))
        nm = f"MetaResource.__new__[{nbases} bases, {'own' if own else 'no own'} declarations]"
        ok = got[0] == "ok" and len(made) == 1 and made[0][0] is RD.MetaResource and made[0][2] is tb and made[0][3] is dct and isinstance(got[1], Obj)
        E.oblige(f"{nm}: makes one class with the given bases", z3.BoolVal(bool(ok)))
        if not ok:
            return
        pm = dct.d.get("prefixes")
        ok = isinstance(pm, (MapV, DictV)) and issubclass(pm.cls, P.PrefixMap) and all(pm is not m.v for m in bm)
        E.oblige(f"{nm}: has its own prefix map", z3.BoolVal(bool(ok)))
        if ok:
            def has(k):
                return disj([m.has(k) for m in bm] + ([om.has(k)] if own else [])) if bm or own else FALSE

            def get(k):
                v = zstr("")
                for m in bm:
                    v = z3.If(m.has(k), m.get(k), v)
                return z3.If(om.has(k), om.get(k), v) if own else v
            map_is(E, f"{nm}: prefixes", pm, has, get)
        for i, m in enumerate(bm):
            map_is(E, f"{nm}: prefixes of base {i} unchanged", m.v, m.has, m.get)
        sc = dct.d.get("scalars")
        ok = isinstance(sc, SetV) and sc.cls is frozenset
        E.oblige(f"{nm}: has a frozen set of scalars", z3.BoolVal(bool(ok)))
        if ok:
            y, z = E.fresh_const("scalar", U), z3.FreshConst(U, "z")
            want = [f(y) for f in bsc]
            if own:
                want.append(ex([z], conj([OS(z), y == CUR(z)])))
            E.oblige(f"{nm}: scalars", sc.mem(y) == (disj(want) if want else FALSE))
        E.oblige(f"{nm}: own scalars are read with the complete prefixes", z3.BoolVal(all(x is pm for x in seen)))
    return Task(f"MetaResource.__new__[{nbases},{own}]", thunk, ["MetaResource.__new__"])


_c14 = c14_tasks


def c14_tasks():
    return _c14() + [classify_task(), register_task()] + [meta_task(n, o) for n in (0, 1, 2) for o in (False, True)]


# ---- C15: List -------------------------------------------------------------------------------------

FIRST, REST, NIL = (RES(T.ofStr(zstr("rdf:" + n))) for n in ("first", "rest", "nil"))


def list_state(E):
    st = St(E, cls=RD.List)
    n, k = z3.Const("length", z3.IntSort()), z3.FreshConst(z3.IntSort(), "k")
    cell, elem = z3.Function("cell", z3.IntSort(), U), z3.Function("element", z3.IntSort(), U)
    for t in (FIRST, REST, NIL):
        E.assume(conj([T.isNN(t), z3.Not(T.isBN(t)), z3.Not(T.isLit(t)), t != NONE]))
    E.assume(conj([st.scalar(FIRST), st.scalar(REST)]))         # List.scalars (MetaResource.__new__, C14)
    o = z3.FreshConst(U, "o")
    inside = conj([k >= 0, k < n])
    E.assume(conj([n >= 0, cell(0) == st.s, cell(n) == NIL]))
    # a well-formed list: every cell has one first and one rest, the last rest is nil
    E.assume(T.forall([k], z3.Implies(inside, conj([cell(k) != NIL, cell(k) != NONE, disj([T.isNN(cell(k)), T.isBN(cell(k))]), z3.Not(T.isLit(cell(k))), elem(k) != NONE])), patterns=[cell(k)]))
    E.assume(T.forall([k, o], z3.Implies(inside, st.mem0(mk(T3, cell(k), FIRST, o)) == (o == elem(k))), patterns=[st.mem0(mk(T3, cell(k), FIRST, o))]))
    E.assume(T.forall([k, o], z3.Implies(inside, st.mem0(mk(T3, cell(k), REST, o)) == (o == cell(k + 1))), patterns=[st.mem0(mk(T3, cell(k), REST, o))]))
    E.assume(T.forall([k], z3.Implies(inside, conj([st.mem0(mk(T3, cell(k), FIRST, elem(k))), st.mem0(mk(T3, cell(k), REST, cell(k + 1)))])), patterns=[cell(k)]))
    st.n, st.cell, st.elem = n, cell, elem
    return st


def subject_term(E, v):
    if isinstance(v, Obj) and "subject" in v.attrs:
        return E.uterm(v.attrs["subject"]), v.attrs.get("graph"), issubclass(v.cls, RD.List)
    if isinstance(v, RecV) and "subject" in v.fields:
        return E.uterm(v.fields["subject"]), v.fields.get("graph"), False
    if isinstance(v, UV):
        return v.e, None, None
    return None, None, None


def item_is(E, nm, v, e, g):
    """the item for the element e: the literal itself, or the resource of the node"""
    if isinstance(v, UV):
        E.oblige(f"{nm}: a literal element is yielded as it is", conj([v.e == e, T.isLit(e)]))
    else:
        t, gr, _ = subject_term(E, v)
        ok = t is not None and gr is g
        E.oblige(f"{nm}: an element is a literal or a resource of the graph", z3.BoolVal(bool(ok)))
        if ok:
            E.oblige(f"{nm}: a node element is yielded as its resource", conj([t == e, z3.Not(T.isLit(e))]))


def list_iter_task():
    def thunk(E):
        from pyvc.core import stored_names, BreakEx, ContinueEx, ReturnEx
        st = list_state(E)
        nm = "List.__iter__"
        hooked = []

        def hook(E_, s, fr):
            hooked.append(1)
            if len(hooked) > 1 or fr.out.items:
                raise Unsupported("second loop")
            names = stored_names(s.body + [s.test])
            k = E_.fresh_const("k", z3.IntSort())
            head = {}
            for x in names:
                if x not in fr.locals:
                    continue
                t, g, is_list = subject_term(E_, fr.locals[x])
                if t is None:
                    fr.locals[x] = Poison(f"{x} assigned in the loop")
                    continue
                E_.oblige(f"{nm}: the traversal starts at the list's own cell ({x})", t == st.cell(0))
                head[x] = is_list
                if is_list is None:
                    fr.locals[x] = UV(st.cell(k))
                else:
                    fr.locals[x] = Obj(E_, RD.List, {"graph": st.g, "subject": UV(st.cell(k)), "scalars": st.r.attrs["scalars"], "lang": st.r.attrs["lang"]}, name="current")
            if not head:
                raise Unsupported("no loop variable over the cells")
            E_.assume(conj([k >= 0, k <= st.n]))
            ret = None
            try:
                done = not E_.test(E_.ev(s.test, fr))
                if not done:
                    try:
                        E_.block(s.body, fr)
                    except ContinueEx:
                        pass
            except BreakEx:
                done = True
            except ReturnEx as r:
                done, ret = True, r
            items = fr.out.items
            if done:
                E_.oblige(f"{nm}: stops only at nil", k == st.n)
                E_.oblige(f"{nm}: nothing is yielded for nil", z3.BoolVal(len(items) == 0))
                E_.assume(k == st.n)
                i = z3.FreshConst(z3.IntSort(), "i")
                fr.out.items = (Seg([i], conj([i >= 0, i < st.n]), UV(st.elem(i))),)
                if ret is not None:
                    raise ret
                return
            E_.oblige(f"{nm}: does not pass nil", k < st.n)
            E_.oblige(f"{nm}: one item per cell", z3.BoolVal(len(items) == 1 and isinstance(items[0], One)))
            if len(items) == 1 and isinstance(items[0], One):
                item_is(E_, nm, items[0].elem, st.elem(k), st.g)
            for x, is_list in head.items():
                t, g, now_list = subject_term(E_, fr.locals[x])
                ok = t is not None and (is_list is None or g is st.g)
                E_.oblige(f"{nm}: moves on to a resource of the graph ({x})", z3.BoolVal(bool(ok)))
                if ok:
                    E_.oblige(f"{nm}: moves on to the next cell ({x})", t == st.cell(k + 1))
                    if is_list and not now_list:
                        E_.oblige(f"{nm}: what follows is again seen as a list, unless it is nil ({x})", st.cell(k + 1) == NIL)
            x = E_.fresh_const("x", T3)
            E_.oblige(f"{nm}: a step changes nothing", view(st.g).mem(x) == st.mem0(x))
            raise Infeasible()
        E.while_hook = hook
        E.contracts[RD.List] = lambda E_, a, kw: Obj(E_, RD.List, {"graph": a[0], "subject": node_of(E_, a[1]), "scalars": st.r.attrs["scalars"], "lang": st.r.attrs["lang"]}, name="a list")
        got = outcome(E, lambda: E.segments(E.call(E.getattr_(st.r, "__iter__"), [], {})))
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        if not hooked:
            raise Unsupported("no loop")
        segs = got[1]
        ok = len(segs) == 1 and isinstance(segs[0], Seg)
        E.oblige(f"{nm}: nothing is yielded besides one item per cell", z3.BoolVal(bool(ok)))
        same_graph(E, nm, st)
    return Task("List.__iter__", thunk, ["List.__iter__", "Resource.get_scalar", "Resource.__getitem__", "Resource._objects_for_key", "Resource.as_"])


def list_nil_task():
    """the empty list"""
    def thunk(E):
        st = St(E, cls=RD.List)
        E.assume(conj([st.s == NIL, T.isNN(NIL), z3.Not(T.isLit(NIL)), NIL != NONE]))
        got = outcome(E, lambda: E.segments(E.call(E.getattr_(st.r, "__iter__"), [], {})))
        E.oblige("List.__iter__ of nil: no item", z3.BoolVal(got[0] == "ok" and len(got[1]) == 0))
        same_graph(E, "List.__iter__ of nil", st)
    return Task("List.__iter__[nil]", thunk, ["List.__iter__"])


def is_list_task():
    def thunk(E):
        st = St(E)
        c = OpaqueV("SomeList", RD.MetaResource, {"$truth": True}, methods={"resolve": lambda E_, a, kw: c_resolve(E_, [c] + list(a), kw)})
        n = z3.Const("node", U)
        E.assume(conj([n != NONE, disj([T.isNN(n), T.isBN(n)]), z3.Not(T.isLit(n))]))
        got = outcome(E, lambda: zb(E.truth(E.call(bound(RD.List.is_list, c), [UV(n), st.g], {}))))
        E.oblige("List.is_list: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        o = z3.FreshConst(U, "o")
        E.oblige("List.is_list: exactly when the node has a rest link", got[1] == ex([o], st.mem0(mk(T3, n, REST, o))))
        same_graph(E, "List.is_list", st)
    return Task("List.is_list", thunk, ["List.is_list"])


def c15_tasks():
    return [list_iter_task(), list_nil_task(), is_list_task()]

"""C07 / C08: compact IRIs, prefix maps, term maps and profiles."""
import z3
import pymantic.primitives as P
from pyvc import terms as T
from pyvc.core import Engine
from pyvc.terms import STR, conj, disj
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.verify import *
from .schemes import SCHEMES

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD = "http://www.w3.org/2001/XMLSchema#"
E0 = z3.StringVal("")


def engine():
    return Engine


class Maps:
    """an arbitrary map string -> string, as an object of the given class"""

    def __init__(self, E, name, cls):
        self.has = z3.Function(f"has_{name}", STR, z3.BoolSort())
        self.get = z3.Function(f"get_{name}", STR, STR)
        self.v = MapV(E, STR, STR, lambda k: self.has(k), lambda k: self.get(k), cls=cls, name=name)
        self.v.attrs["$hasattr"] = lambda n: E.class_lookup(cls, n) is not None


def cat(*xs):
    return z3.Concat(*xs)


def is_str(E, name, got, want, cls=None):
    """got is the string `want` (and of class cls when given)"""
    if got[0] != "ok":
        E.oblige(f"{name}: does not raise", FALSE)
        return
    v = got[1]
    if v is None or not isinstance(v, (str, StrV, UV)):
        E.oblige(f"{name}: gives a string", FALSE)
        return
    E.oblige(f"{name}", E.zstr(v) == want)
    if cls is not None:
        c = v.cls if isinstance(v, StrV) else type(v)
        E.oblige(f"{name}: is a {cls.__name__}", z3.BoolVal(isinstance(c, type) and issubclass(c, cls)))


def map_is(E, name, m, has, get, keyname="key"):
    """the map holds exactly the bindings has/get"""
    if isinstance(m, DictV):
        k = E.fresh_const(keyname, STR)
        from pyvc.model import SymKey
        alts, val = [], None
        for kk, v in m.d.items():
            kt = E.zstr(kk.v if isinstance(kk, SymKey) else kk)
            alts.append(k == kt)
            vt = E.zstr(v)
            val = vt if val is None else z3.If(k == kt, vt, val)
        h = disj(alts) if alts else FALSE
        E.oblige(f"{name}: exactly the bound keys", h == has(k))
        if val is not None:
            E.oblige(f"{name}: exactly the bound values", z3.Implies(h, val == get(k)))
        return
    if not isinstance(m, MapV):
        raise Unsupported(f"{name}: not a map {m!r}")
    k = E.fresh_const(keyname, STR)
    E.oblige(f"{name}: exactly the bound keys", m.has(k) == has(k))
    E.oblige(f"{name}: exactly the bound values", z3.Implies(has(k), m.get(k) == get(k)))


def scheme(x):
    return disj([x == z3.StringVal(s) for s in SCHEMES])


def parse_task(shape, via):
    """shape: bracketed / colon / plain"""
    def thunk(E):
        m = Maps(E, "ns", P.PrefixMap if via else dict)
        p, r = z3.Const("prefix", STR), z3.Const("reference", STR)
        colon = z3.StringVal(":")
        E.assume(z3.Not(z3.Contains(p, colon)))
        inner = p if shape.endswith("plain") else cat(p, colon, r)
        br = shape.startswith("bracketed")
        if br:
            pieces = ["[", Zs(p)] + ([] if shape.endswith("plain") else [":", Zs(r)]) + ["]"]
        else:
            pieces = [Zs(p)] + ([] if shape.endswith("plain") else [":", Zs(r)])
            whole = StrV(pieces).z()
            E.assume(z3.Length(whole) > 0)
            E.assume(z3.Not(conj([z3.PrefixOf(z3.StringVal("["), whole), z3.SuffixOf(z3.StringVal("]"), whole)])))
        c = StrV(pieces)
        whole = c.z()
        before = m.v.snap()
        if via:
            got = outcome(E, lambda: E.call(E.getattr_(m.v, "resolve"), [c], {}))
        else:
            got = outcome(E, lambda: E.call(P.parse_curie, [c, m.v], {}))
        nm = f"parse_curie({shape})"
        E.oblige(f"{nm}: the prefix map is unchanged", z3.BoolVal(m.v.snap()[:3] == before[:3]))
        if shape.endswith("plain"):
            if not br and E.decide(scheme(p)):
                return          # a bare scheme name: either reading is accepted
            if E.decide(m.has(E0)):
                is_str(E, f"{nm}: default namespace followed by the name", got, cat(m.get(E0), p), P.NamedNode)
            elif not E.decide(m.has(p)):
                E.oblige(f"{nm}: an unbound name raises ValueError", z3.BoolVal(got[0] == "raise" and issubclass(got[1].cls, ValueError)))
            return
        if not br and E.decide(scheme(p)):
            is_str(E, f"{nm}: an IRI with a registered scheme is returned unchanged", got, whole, P.NamedNode)
        elif E.decide(m.has(p)):
            is_str(E, f"{nm}: the bound namespace followed by the reference", got, cat(m.get(p), r), P.NamedNode)
        else:
            E.oblige(f"{nm}: an unbound prefix raises ValueError", z3.BoolVal(got[0] == "raise" and issubclass(got[1].cls, ValueError)))
    return Task(f"{'PrefixMap.resolve' if via else 'parse_curie'}[{shape}]", thunk,
                ["parse_curie"] + (["PrefixMap.resolve"] if via else []))


def shrink_post(E, nm, m, uri, sep, explicit, got):
    """the contract of to_curie on (got)"""
    k = z3.Const("any_prefix", STR)
    if got[0] != "ok" or not isinstance(got[1], (str, StrV, UV)):
        E.oblige(f"{nm}: gives a string", FALSE)
        return
    g = E.zstr(got[1])
    starts = lambda x: conj([m.has(x), z3.PrefixOf(m.get(x), uri)])
    q = z3.FreshConst(STR, "k")
    none = z3.Not(T.ex([q], starts(q)))
    lb, rb = (z3.StringVal("["), z3.StringVal("]")) if explicit else (E0, E0)
    longest = lambda x: T.forall([k], z3.Implies(starts(k), z3.Length(m.get(k)) <= z3.Length(m.get(x))))
    form = lambda x: cat(lb, x, sep, z3.SubString(uri, z3.Length(m.get(x)), z3.Length(uri) - z3.Length(m.get(x))), rb)
    return g, none, longest, form, starts


def shrink_task(explicit, via):
    def thunk(E):
        m = Maps(E, "ns", P.PrefixMap if via else dict)
        uri = z3.Const("uri", STR)
        sep = z3.StringVal(":")
        before = m.v.snap()
        witness = []
        args = [sv(uri, P.NamedNode)]
        if via:
            got = outcome(E, lambda: E.call(E.getattr_(m.v, "shrink"), args, {}))
        else:
            sep = z3.Const("sep", STR)
            got = outcome(E, lambda: E.call(P.to_curie, args + [m.v], dict(seperator=sv(sep), explicit=explicit)))
        nm = "PrefixMap.shrink" if via else f"to_curie(explicit={explicit})"
        E.oblige(f"{nm}: the prefix map is unchanged", z3.BoolVal(m.v.snap()[:3] == before[:3]))
        if got[0] != "ok" or not isinstance(got[1], (str, StrV, UV)):
            E.oblige(f"{nm}: gives a string", FALSE)
            return
        g = E.zstr(got[1])
        starts = lambda x: conj([m.has(x), z3.PrefixOf(m.get(x), uri)])
        any_ = E.fresh_const("any_prefix", STR)
        lb, rb = ("[", "]") if explicit else ("", "")
        # the matching prefix chosen by the code is the witness of the existential
        ws = [w for w in T.consts_of(E.pcs() + [g]) if w.sort().eq(STR) and not w.eq(uri) and not w.eq(sep)]
        alts = []
        for w in ws:
            rest = z3.SubString(uri, z3.Length(m.get(w)), z3.Length(uri) - z3.Length(m.get(w)))
            form = StrV([lb, Zs(w), Zs(sep), Zs(rest), rb]).z()
            alts.append(conj([starts(w), g == form, z3.Implies(starts(any_), z3.Length(m.get(any_)) <= z3.Length(m.get(w)))]))
        unchanged = conj([z3.Not(starts(any_)), g == uri])
        E.oblige(f"{nm}: a longest matching namespace is replaced by its prefix, or the IRI is unchanged if none matches",
                 disj(alts + [unchanged]))
    return Task(f"{'PrefixMap.shrink' if via else 'to_curie'}[{'explicit' if explicit else 'plain'}]", thunk,
                ["to_curie"] + (["PrefixMap.shrink"] if via else []))


def roundtrip_task(explicit):
    """resolving what to_curie's contract promises gives the IRI back (to_curie by contract, parse_curie by body)"""
    def thunk(E):
        m = Maps(E, "ns", dict)
        p, r = z3.Const("prefix", STR), z3.Const("rest", STR)
        for ch in ":[]":
            E.assume(z3.Not(z3.Contains(p, z3.StringVal(ch))))
        E.assume(z3.Not(scheme(p)))
        E.assume(m.has(p))
        uri = cat(m.get(p), r)
        c = StrV((["["] if explicit else []) + [Zs(p), ":", Zs(r)] + (["]"] if explicit else []))
        got = outcome(E, lambda: E.call(P.parse_curie, [c, m.v], {}))
        is_str(E, "resolve after shrink: gives the original IRI", got, uri, P.NamedNode)
    return Task(f"resolve after shrink[{'explicit' if explicit else 'plain'}]", thunk, ["parse_curie", "to_curie"])


def curies_task():
    def thunk(E):
        m = Maps(E, "ns", dict)
        i = z3.FreshConst(z3.IntSort(), "i")
        f = z3.Function("curie_at", z3.IntSort(), STR)
        n = z3.Const("n", z3.IntSort())
        res = z3.Function("resolved", STR, STR)
        E.contracts[P.parse_curie] = lambda E_, a, k: sv(res(E_.zstr(a[0])), P.NamedNode)
        seq = SeqV([Seg([i], conj([i >= 0, i < n]), sv(f(i)))])
        got = outcome(E, lambda: E.segments(E.call(P.parse_curies, [seq, m.v], {})))
        ok = got[0] == "ok" and len(got[1]) == 1 and isinstance(got[1][0], Seg) and len(got[1][0].bs) == 1
        E.oblige("parse_curies: one result per CURIE", z3.BoolVal(bool(ok)))
        if ok:
            s = got[1][0]
            j = E.fresh_const("j", z3.IntSort())
            g, el = s.inst([j])
            E.oblige("parse_curies: for every position", g == conj([j >= 0, j < n]))
            E.oblige("parse_curies: the resolution of that CURIE", z3.Implies(g, E.zstr(el) == res(f(j))))
    return Task("parse_curies", thunk, ["parse_curies"])


def schemes_task():
    def thunk(E):
        import pymantic.uri_schemes as us
        missing = [s for s in SCHEMES if s not in us.schemes]
        E.oblige("every registered URI scheme is recognised", z3.BoolVal(not missing))
        E.oblige("only scheme names are in the table", z3.BoolVal(all(isinstance(s, str) and s and ":" not in s for s in us.schemes)))
    return Task("uri_schemes", thunk, ["uri_schemes.schemes"])


def c07_tasks():
    ts = []
    for via in (False, True):
        for s in ("colon", "plain", "bracketed colon", "bracketed plain"):
            ts.append(parse_task(s, via))
        for e in ((False, True) if not via else (False,)):
            ts.append(shrink_task(e, via))
    ts += [roundtrip_task(False), roundtrip_task(True), curies_task(), schemes_task()]
    return ts


# ---- C08 ------------------------------------------------------------------------------------------

def unchanged(E, name, m):
    map_is(E, name, m.v, m.has, m.get)


def addall_task(cls, src, ov):
    def thunk(E):
        a = Maps(E, "a", cls)
        if src == "self":
            b = a
        elif src == "empty":
            b = None
        else:
            b = Maps(E, "b", {"same": cls, "dict": dict}[src])
        arg = b.v if b else DictV(E, cls=cls)
        over = {"yes": True, "no": False, "default": False}[ov]
        kw = {} if ov == "default" else {"override": over}
        got = outcome(E, lambda: E.call(E.getattr_(a.v, "addAll"), [arg], kw))
        nm = f"{cls.__name__}.addAll({src}, override={ov})"
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        E.oblige(f"{nm}: returns the map itself", z3.BoolVal(got[1] is a.v))
        bh, bg = (b.has, b.get) if b else ((lambda k: FALSE), a.get)
        has = lambda k: disj([a.has(k), bh(k)])
        get = (lambda k: z3.If(bh(k), bg(k), a.get(k))) if over else (lambda k: z3.If(a.has(k), a.get(k), bg(k)))
        map_is(E, nm, a.v, has, get)
        if b and b is not a:
            unchanged(E, f"{nm}: source", b)
        E.oblige(f"{nm}: no other state changes", z3.BoolVal(set(a.v.attrs) <= {"$hasattr"}))
    return Task(f"{cls.__name__}.addAll[{src},{ov}]", thunk, [f"{cls.__name__}.addAll"])


def term_resolve_task():
    def thunk(E):
        a = Maps(E, "a", P.TermMap)
        t = z3.Const("term", STR)
        d = z3.Const("default", STR)
        with_default = E.choose()
        if with_default:
            r = outcome(E, lambda: E.call(E.getattr_(a.v, "setDefault"), [sv(d)], {}))
            E.oblige("TermMap.setDefault: does not raise", z3.BoolVal(r[0] == "ok"))
            unchanged(E, "TermMap.setDefault", a)
        got = outcome(E, lambda: E.call(E.getattr_(a.v, "resolve"), [sv(t)], {}))
        unchanged(E, "TermMap.resolve", a)
        if E.decide(a.has(t)):
            is_str(E, "TermMap.resolve: the bound IRI", got, a.get(t))
        elif with_default:
            is_str(E, "TermMap.resolve: default followed by the term", got, cat(d, t))
        else:
            E.oblige("TermMap.resolve: nothing when unbound", z3.BoolVal(got[0] == "ok" and got[1] is None))
    return Task("TermMap.resolve", thunk, ["TermMap.resolve", "TermMap.setDefault"])


def term_shrink_task():
    def thunk(E):
        a = Maps(E, "a", P.TermMap)
        iri = z3.Const("iri", STR)
        got = outcome(E, lambda: E.call(E.getattr_(a.v, "shrink"), [sv(iri, P.NamedNode)], {}))
        unchanged(E, "TermMap.shrink", a)
        ok = got[0] == "ok" and isinstance(got[1], (str, StrV, UV))
        E.oblige("TermMap.shrink: gives a string", z3.BoolVal(bool(ok)))
        if ok:
            g = E.zstr(got[1])
            k = E.fresh_const("k", STR)
            E.oblige("TermMap.shrink: a term bound to the IRI, or the IRI itself when there is none",
                     disj([conj([a.has(g), a.get(g) == iri]),
                           conj([g == iri, z3.Not(conj([a.has(k), a.get(k) == iri]))])]))
    return Task("TermMap.shrink", thunk, ["TermMap.shrink"])


def prefix_default_task():
    def thunk(E):
        a = Maps(E, "a", P.PrefixMap)
        d = z3.Const("default", STR)
        got = outcome(E, lambda: E.call(E.getattr_(a.v, "setDefault"), [sv(d)], {}))
        E.oblige("PrefixMap.setDefault: does not raise", z3.BoolVal(got[0] == "ok"))
        map_is(E, "PrefixMap.setDefault", a.v, lambda k: disj([k == E0, a.has(k)]), lambda k: z3.If(k == E0, d, a.get(k)))
    return Task("PrefixMap.setDefault", thunk, ["PrefixMap.setDefault"])


def with_std(m):
    """bindings of a new profile made from m's bindings (m None: none)"""
    mh = m.has if m else (lambda k: FALSE)
    rdf, xsd = z3.StringVal("rdf"), z3.StringVal("xsd")
    has = lambda k: disj([mh(k), k == rdf, k == xsd])

    def get(k):
        d = z3.If(k == rdf, z3.StringVal(RDF), z3.StringVal(XSD))
        return z3.If(mh(k), m.get(k), d) if m else d
    return has, get


def profile_new_task(cls, pk, tk):
    def thunk(E):
        p = Maps(E, "p", P.PrefixMap) if pk == "map" else None
        t = Maps(E, "t", P.TermMap) if tk == "map" else None
        pv = p.v if p else (None if pk == "none" else DictV(E, cls=P.PrefixMap))
        tv = t.v if t else (None if tk == "none" else DictV(E, cls=P.TermMap))
        got = outcome(E, lambda: E.call(cls, [pv, tv], {}))
        nm = f"{cls.__name__}({pk}, {tk})"
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        pr, te = E.getattr_(got[1], "prefixes"), E.getattr_(got[1], "terms")
        E.oblige(f"{nm}: prefixes is a PrefixMap", z3.BoolVal(isinstance(getattr(pr, "cls", None), type) and issubclass(pr.cls, P.PrefixMap)))
        E.oblige(f"{nm}: terms is a TermMap", z3.BoolVal(isinstance(getattr(te, "cls", None), type) and issubclass(te.cls, P.TermMap)))
        map_is(E, f"{nm}: prefixes", pr, *with_std(p))
        if t:
            map_is(E, f"{nm}: terms", te, t.has, t.get)
        else:
            map_is(E, f"{nm}: terms", te, lambda k: FALSE, lambda k: E0)
    return Task(f"{cls.__name__}.__init__[{pk},{tk}]", thunk, ["Profile.__init__"])


def a_profile(E, name, cls=P.Profile):
    p, t = Maps(E, name + "p", P.PrefixMap), Maps(E, name + "t", P.TermMap)
    return Obj(E, cls, {"prefixes": p.v, "terms": t.v}, name=name), p, t


def profile_set_tasks():
    def mk(method, args, pwant, twant):
        def thunk(E):
            o, p, t = a_profile(E, "self")
            k, v = z3.Const("name", STR), z3.Const("iri", STR)
            got = outcome(E, lambda: E.call(E.getattr_(o, method), [sv(x) for x in ((k, v) if args == 2 else (v,))], {}))
            E.oblige(f"Profile.{method}: does not raise", z3.BoolVal(got[0] == "ok"))
            E.oblige(f"Profile.{method}: keeps its maps", z3.BoolVal(o.attrs.get("prefixes") is p.v and o.attrs.get("terms") is t.v))
            for nm, m, want in (("prefixes", p, pwant), ("terms", t, twant)):
                if want is None:
                    unchanged(E, f"Profile.{method}: {nm}", m)
                else:
                    kk = k if want == "key" else E0
                    map_is(E, f"Profile.{method}: {nm}", m.v, lambda x: disj([x == kk, m.has(x)]),
                           lambda x: z3.If(x == kk, v, m.get(x)))
            if method == "setDefaultVocabulary":
                dv = t.v.attrs.get("default")
                E.oblige(f"Profile.{method}: sets the default vocabulary", z3.BoolVal(dv is not None) if dv is None else E.zstr(dv) == v)
        return Task(f"Profile.{method}", thunk, [f"Profile.{method}"])
    return [mk("setPrefix", 2, "key", None), mk("setTerm", 2, None, "key"), mk("setDefaultPrefix", 1, "empty", None),
            mk("setDefaultVocabulary", 1, None, None)]


def profile_resolve_task():
    def thunk(E):
        o, p, t = a_profile(E, "self")
        s = z3.Const("toresolve", STR)
        pres, tres = z3.Function("prefix_resolve", STR, STR), z3.Function("term_resolve", STR, T.U)
        calls = []
        E.contracts[P.PrefixMap.resolve] = lambda E_, a, k: (calls.append(("p", a)), sv(pres(E_.zstr(a[1])), P.NamedNode))[1]
        E.contracts[P.TermMap.resolve] = lambda E_, a, k: (calls.append(("t", a)), UV(tres(E_.zstr(a[1]))))[1]
        got = outcome(E, lambda: E.call(E.getattr_(o, "resolve"), [sv(s)], {}))
        E.oblige("Profile.resolve: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        colon = z3.Contains(s, z3.StringVal(":"))
        if E.decide(colon):
            ok = len(calls) == 1 and calls[0][0] == "p" and calls[0][1][0] is p.v and isinstance(got[1], StrV)
            E.oblige("Profile.resolve: a string with a colon goes to the prefixes", z3.BoolVal(bool(ok)))
            if ok:
                E.oblige("Profile.resolve: unchanged", E.zstr(got[1]) == pres(s))
        else:
            ok = len(calls) == 1 and calls[0][0] == "t" and calls[0][1][0] is t.v and isinstance(got[1], UV)
            E.oblige("Profile.resolve: a string without a colon goes to the terms", z3.BoolVal(bool(ok)))
            if ok:
                E.oblige("Profile.resolve: unchanged", got[1].e == tres(s))
        unchanged(E, "Profile.resolve: prefixes", p)
        unchanged(E, "Profile.resolve: terms", t)
    return Task("Profile.resolve", thunk, ["Profile.resolve"])


def import_task(ov):
    def thunk(E):
        o, p, t = a_profile(E, "self")
        o2, p2, t2 = a_profile(E, "other")
        over = ov == "yes"
        defaults = []
        for m, c in ((t, "target default"), (t2, "source default")):
            d = None
            if E.choose():
                d = z3.Const(c, STR)
                r = outcome(E, lambda: E.call(E.getattr_(m.v, "setDefault"), [sv(d)], {}))
                E.oblige("TermMap.setDefault: does not raise", z3.BoolVal(r[0] == "ok"))
            defaults.append((m, d))
        got = outcome(E, lambda: E.call(E.getattr_(o, "importProfile"), [o2] + ([] if ov == "default" else [over]), {}))
        nm = f"Profile.importProfile(override={ov})"
        fresh = z3.Const("unbound term", STR)
        for (m, d), what in zip(defaults, ("target", "source")):
            if E.decide(z3.Or(t.has(fresh), t2.has(fresh))):
                continue
            r = outcome(E, lambda: E.call(E.getattr_(m.v, "resolve"), [sv(fresh)], {}))
            if d is None:
                E.oblige(f"{nm}: {what} has no default vocabulary after", z3.BoolVal(r[0] == "ok" and r[1] is None))
            else:
                is_str(E, f"{nm}: {what} default vocabulary unchanged", r, cat(d, fresh))
        E.oblige(f"{nm}: returns the profile itself", z3.BoolVal(got[0] == "ok" and got[1] is o))
        for kind, a, b in (("prefixes", p, p2), ("terms", t, t2)):
            get = (lambda k: z3.If(b.has(k), b.get(k), a.get(k))) if over else (lambda k: z3.If(a.has(k), a.get(k), b.get(k)))
            map_is(E, f"{nm}: {kind}", a.v, lambda k: disj([a.has(k), b.has(k)]), get)
            unchanged(E, f"{nm}: source {kind}", b)
    return Task(f"Profile.importProfile[{ov}]", thunk, ["Profile.importProfile", "PrefixMap.addAll", "TermMap.addAll"])


def env_task(method, empty):
    def thunk(E):
        o, p, t = a_profile(E, "env", P.RDFEnvironment)
        got = outcome(E, lambda: E.call(E.getattr_(o, method), [empty], {}))
        nm = f"RDFEnvironment.{method}(empty={empty})"
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        none = (lambda k: FALSE, lambda k: E0)
        if method == "createProfile":
            pr, te = E.getattr_(got[1], "prefixes"), E.getattr_(got[1], "terms")
            map_is(E, f"{nm}: prefixes", pr, *with_std(None if empty else p))
            map_is(E, f"{nm}: terms", te, *(none if empty else (t.has, t.get)))
        else:
            src = p if method == "createPrefixMap" else t
            E.oblige(f"{nm}: a new map", z3.BoolVal(got[1] is not src.v))
            map_is(E, nm, got[1], *(none if empty else (src.has, src.get)))
            unchanged(E, f"{nm}: environment", src)
    return Task(f"RDFEnvironment.{method}[empty={empty}]", thunk, [f"RDFEnvironment.{method}", "Profile.__init__"])


def c08_tasks():
    ts = []
    for cls in (P.PrefixMap, P.TermMap):
        for src in ("same", "dict", "self", "empty"):
            for ov in ("yes", "no", "default"):
                ts.append(addall_task(cls, src, ov))
    ts += [term_resolve_task(), term_shrink_task(), prefix_default_task()]
    for cls in (P.Profile, P.RDFEnvironment):
        for pk in ("map", "none", "empty"):
            for tk in ("map", "none", "empty"):
                ts.append(profile_new_task(cls, pk, tk))
    ts += profile_set_tasks() + [profile_resolve_task()] + [import_task(o) for o in ("yes", "no", "default")]
    for m in ("createProfile", "createTermMap", "createPrefixMap"):
        for e in (True, False):
            ts.append(env_task(m, e))
    return ts

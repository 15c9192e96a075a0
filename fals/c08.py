"""C08: prefix maps, term maps, profiles.  Oracle: plain dictionaries."""
from .lib import *

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD = "http://www.w3.org/2001/XMLSchema#"


def merge(a, b, over):
    out = dict(a)
    for k, v in b.items():
        if over or k not in out:
            out[k] = v
    return out


def is_(m, want, what):
    expect(dict(m.items()) == want and set(m) == set(want) and len(m) == len(want) and all(k in m and m[k] == v for k, v in want.items()),
           f"{what}: bindings", dict(m.items()), want)


def term_ok(t, d, default, what, extra):
    for k in list(d) + extra:
        want = d[k] if k in d else (default + k if default is not None else None)
        got = t.resolve(k)
        expect(got == want, f"{what}: resolve({k!r}) should be {want!r}", got)
    for v in list(d.values()) + extra:
        got = t.shrink(v)
        bound = [k for k in d if d[k] == v]
        expect((got in bound) if bound else got == v, f"{what}: shrink({v!r}) should be {bound or v!r}", got)
    is_(t, d, what + " after resolving")


def execute(case):
    from pymantic import primitives as P
    kind, a, b, ops, extra = case[0], dict(case[1]), dict(case[2]), case[3], list(case[4])
    if kind in ("prefix", "term"):
        cls = P.PrefixMap if kind == "prefix" else P.TermMap
        m, model, default = cls(a), dict(a), None
        for op in ops:
            if op[0] == "addAll":
                src = {"map": cls(b), "dict": dict(b), "self": m, "empty": cls(), "other": (P.TermMap if kind == "prefix" else P.PrefixMap)(b)}[op[1]]
                sd = dict(src)
                kw = {} if op[2] is None else {"override": op[2]}
                r = m.addAll(src, **kw)
                expect(r is m, "addAll returns the map itself", r)
                model = merge(model, sd, bool(op[2]))
                is_(m, model, f"addAll({op[1]}, override={op[2]})")
                if src is not m:
                    is_(src, sd, "addAll: the source")
                    src["__later"] = "x"
                    is_(m, model, "addAll: later change of the source")
            elif op[0] == "set":
                m[op[1]] = op[2]
                model[op[1]] = op[2]
                is_(m, model, "item assignment")
            elif op[0] == "default":
                m.setDefault(op[1])
                if kind == "prefix":
                    model[""] = op[1]
                else:
                    default = op[1]
                is_(m, model, "setDefault")
            if kind == "term":
                term_ok(m, model, default, "TermMap", extra)
    elif kind == "profile":
        pk, tk = ops[0]
        pa = {"map": P.PrefixMap(a), "none": None, "empty": P.PrefixMap()}[pk]
        ta = {"map": P.TermMap(b), "none": None, "empty": P.TermMap()}[tk]
        mp = merge(a if pk == "map" else {}, {"rdf": RDF, "xsd": XSD}, False)
        mt = dict(b) if tk == "map" else {}
        cls = P.RDFEnvironment if ops[1] else P.Profile
        pr = cls(pa, ta)
        other = P.Profile()
        is_(other.prefixes, {"rdf": RDF, "xsd": XSD}, "a second new profile: prefixes")
        is_(other.terms, {}, "a second new profile: terms")
        default = None
        is_(pr.prefixes, mp, "new profile: prefixes")
        is_(pr.terms, mt, "new profile: terms")
        for op in ops[2:]:
            if op[0] == "import":
                src = P.Profile(P.PrefixMap(dict(op[1])), P.TermMap(dict(op[2])))
                sp, st = dict(src.prefixes), dict(src.terms)
                if len(op[1]) % 2:
                    src.setDefaultVocabulary("http://of-the-source/")
                r = pr.importProfile(src, **({} if op[3] is None else {"override": op[3]}))
                expect(r is pr, "importProfile returns the profile itself", r)
                mp, mt = merge(mp, sp, bool(op[3])), merge(mt, st, bool(op[3]))
                is_(src.prefixes, sp, "importProfile: source prefixes")
                is_(src.terms, st, "importProfile: source terms")
            elif op[0] == "setPrefix":
                pr.setPrefix(op[1], op[2])
                mp[op[1]] = op[2]
            elif op[0] == "setTerm":
                pr.setTerm(op[1], op[2])
                mt[op[1]] = op[2]
            elif op[0] == "setDefaultPrefix":
                pr.setDefaultPrefix(op[1])
                mp[""] = op[1]
            elif op[0] == "setDefaultVocabulary":
                pr.setDefaultVocabulary(op[1])
                default = op[1]
            elif op[0] == "create" and ops[1]:
                c, e = op[1], op[2]
                if c == "createProfile":
                    q = pr.createProfile(e)
                    is_(q.prefixes, {"rdf": RDF, "xsd": XSD} if e else mp, f"createProfile(empty={e}): prefixes")
                    is_(q.terms, {} if e else mt, f"createProfile(empty={e}): terms")
                else:
                    q = getattr(pr, c)(e)
                    want = {} if e else dict(mt if c == "createTermMap" else mp)
                    is_(q, want, f"{c}(empty={e})")
                    q["__later"] = "x"
            is_(pr.prefixes, mp, f"{op[0]}: prefixes")
            is_(pr.terms, mt, f"{op[0]}: terms")
            for s in extra + list(mt):
                if ":" in s:
                    a_, b_ = s.split(":", 1)
                    if a_ in mp and "[" not in s and a_ not in ("http", "https", "urn", "mailto", "x"):
                        try:
                            got = pr.resolve(s)
                        except ValueError:
                            got = ValueError
                        from .c07 import resolve_oracle
                        want = resolve_oracle(s, mp)
                        expect(want is ... or got == want, f"profile.resolve({s!r})", got, want)
                else:
                    want = mt[s] if s in mt else (default + s if default is not None else None)
                    got = pr.resolve(s)
                    expect(got == want, f"profile.resolve({s!r}) should be {want!r}", got)
        is_(other.prefixes, {"rdf": RDF, "xsd": XSD}, "an unrelated profile: prefixes")
        is_(other.terms, {}, "an unrelated profile: terms")


KEYS = ["", "a", "b", "rdf", "xsd", "rdfs", "member", "é"]
VALS = ["", "http://a/", "http://b#", RDF, XSD, "x", "http://a/x"]
EXTRA = ("a", "zzz", "rdf:type", "a:b", "http://a/", "", "b:c:d", ":me")


def fixed():
    ms = [(), (("a", "http://a/"),), (("a", "http://b#"), ("b", "http://a/")), (("", ""), ("a", "")), (("rdf", "http://my/"),),
          (("rdf", "http://my/"), ("xsd", "")), (("a", "http://a/"), ("c", "http://a/"), ("b", "http://a/"))]
    for kind in ("prefix", "term"):
        for a in ms:
            for b in ms:
                for src in ("map", "dict", "self", "empty", "other"):
                    for ov in (None, True, False):
                        yield (kind, a, b, (("addAll", src, ov), ("default", "http://d#"), ("set", "a", "http://s/"), ("addAll", src, False), ("default", "")), EXTRA)
    for a in ms:
        for b in ms:
            for pk in ("map", "none", "empty"):
                for tk in ("map", "none", "empty"):
                    for env in (False, True):
                        for ov in (None, True, False):
                            yield ("profile", a, b, ((pk, tk), env, ("import", b, a, ov), ("setPrefix", "a", "http://s/"), ("setTerm", "a", "http://t/"),
                                                     ("create", "createProfile", False), ("create", "createTermMap", False), ("create", "createPrefixMap", False),
                                                     ("create", "createProfile", True), ("create", "createTermMap", True), ("create", "createPrefixMap", True),
                                                     ("setDefaultPrefix", "http://d/"), ("setDefaultVocabulary", "http://v/"), ("import", a, b, ov)), EXTRA)


def cases(r):
    ks = lambda: r.choice(KEYS + [rand_str(r, 3)] + [s for s in mined_strings() if len(s) < 12])
    vs = lambda: r.choice(VALS + [rand_iri(r)])
    mm = lambda: tuple((ks(), vs()) for _ in range(r.randrange(5)))
    while True:
        a, b = mm(), mm()
        ex = tuple(EXTRA) + (ks(), vs(), rand_str(r, 4))
        if r.random() < 0.5:
            ops = tuple(r.choice([("addAll", r.choice(["map", "dict", "self", "empty"]), r.choice([None, True, False, 1, 0])),
                                  ("set", ks(), vs()), ("default", vs())]) for _ in range(r.randrange(1, 6)))
            yield (r.choice(["prefix", "term"]), a, b, ops, ex)
        else:
            ops = [(r.choice(["map", "none", "empty"]), r.choice(["map", "none", "empty"])), r.random() < 0.5]
            for _ in range(r.randrange(1, 6)):
                ops.append(r.choice([("import", mm(), mm(), r.choice([None, True, False])), ("setPrefix", ks(), vs()), ("setTerm", ks(), vs()),
                                     ("setDefaultPrefix", vs()), ("setDefaultVocabulary", vs()),
                                     ("create", r.choice(["createProfile", "createTermMap", "createPrefixMap"]), r.random() < 0.5)]))
            yield ("profile", a, b, tuple(ops), ex)

import datetime
import itertools
import pickle
from .lib import *

XSD = "http://www.w3.org/2001/XMLSchema#"
NAMES = {"Triple": ("subject", "predicate", "object"), "Quad": ("subject", "predicate", "object", "graph"),
         "Literal": ("value", "language", "datatype")}


def same(a, b):
    return a is b or (a == b and type(a) is type(b))


def check(v, cls, comps, what):
    n = NAMES[cls.__name__]
    expect(type(v) is cls and isinstance(v, tuple) and len(v) == len(comps), f"{what}: builds a {cls.__name__}", v)
    for i, (f, c) in enumerate(zip(n, comps)):
        expect(same(tuple.__getitem__(v, i), c), f"{what}: component {i}", v, c)
        expect(same(getattr(v, f), c), f"{what}: field {f}", v, c)
    expect(list(v._asdict().items()) == list(zip(n, comps)), f"{what}: _asdict", v._asdict())
    w = cls._make(list(v))
    expect(w == v and hash(w) == hash(v) and not (w != v), f"{what}: equal components, equal values", v)
    for f in n:
        try:
            setattr(v, f, "x")
        except AttributeError:
            pass
        else:
            raise Fail(f"{what}: field {f} can be assigned")


def execute(case):
    env = Env()
    P = env.P
    kind = case[0]
    if kind == "value":
        _, cn, comps, sub, extra = case
        cls = getattr(P, cn)
        n = NAMES[cn]
        cs = [env.term(c) for c in comps[:len(n)]]
        if cn == "Literal":
            cs[0] = str(comps[0][1]) if comps[0] is not None else ""
        check(cls(*cs), cls, cs, f"{cn}(...)")
        check(cls(**dict(zip(n, cs))), cls, cs, f"{cn}(keywords)")
        for src in (list(cs), tuple(cs), iter(cs), (c for c in cs)):
            check(cls._make(src), cls, cs, f"{cn}._make")
        v = cls(*cs)
        new = {n[i]: env.term(c) for i, c in sub if i < len(n)}
        check(v._replace(**new), cls, [new.get(f, c) for f, c in zip(n, cs)], f"{cn}._replace({list(new)})")
        check(v, cls, cs, f"{cn} after _replace")
        if extra is not None:
            for e in (extra, "no_such_field"):
                if e in n:
                    continue
                try:
                    r = v._replace(**{**new, e: None})
                except (ValueError, TypeError):
                    pass
                else:
                    raise Fail(f"{cn}._replace accepted the unknown field {e!r}: {safe_repr(r)}")
        if cn == "Quad":
            check(P.q_as_t(v), P.Triple, cs[:3], "q_as_t")
            check(P.t_as_q(cs[3], P.Triple(*cs[:3])), P.Quad, cs, "t_as_q")
            check(P.t_as_q(cs[3], P.q_as_t(v)), P.Quad, cs, "t_as_q of q_as_t")
    elif kind == "length":
        _, cn, comps = case
        cls = getattr(P, cn)
        cs = [env.term(c) for c in comps]
        for src in (list(cs), tuple(cs), iter(cs)):
            try:
                r = cls._make(src)
            except TypeError:
                expect(len(cs) != len(NAMES[cn]), f"{cn}._make refused {len(cs)} components")
            else:
                expect(len(cs) == len(NAMES[cn]), f"{cn}._make accepted {len(cs)} components", r)
    elif kind == "int":
        n, dt = case[1], case[2]
        lit = P.Literal(n) if dt is None else P.Literal(n, None, P.NamedNode(dt))
        check(lit, P.Literal, [str(n), None, P.NamedNode(XSD + "integer") if dt is None else P.NamedNode(dt)], f"Literal({n})")
    elif kind == "dt":
        _, y, mo, d, h, mi, s, us, off, dt = case
        tz = None if off is None else datetime.timezone(datetime.timedelta(minutes=off))
        m = datetime.datetime(y, mo, d, h, mi, s, us, tz)
        lit = P.Literal(m) if dt is None else P.Literal(m, None, P.NamedNode(dt))
        check(lit, P.Literal, [m.isoformat(), None, P.NamedNode(XSD + "dateTime") if dt is None else P.NamedNode(dt)], f"Literal({m!r})")
        expect(datetime.datetime.fromisoformat(lit.value) == m, "lexical form denotes the same moment", lit)
    elif kind == "str":
        from pymantic import util
        _, v, lang, dt = case
        d = None if dt is None else P.NamedNode(dt)
        check(P.Literal(v, lang, d), P.Literal, [v, lang, d], "Literal(str)")
        check(P.Literal(v, datatype=d), P.Literal, [v, None, d], "Literal(str, datatype=)")
        check(P.Literal(v, language=lang), P.Literal, [v, lang, None], "Literal(str, language=)")
        check(P.Literal(v), P.Literal, [v, None, None], "Literal(str)")
        check(util.en(v), P.Literal, [v, "en", None], "en()")
        check(util.de(v), P.Literal, [v, "de", None], "de()")
        e = P.RDFEnvironment()
        check(e.createLiteral(v, lang, d), P.Literal, [v, lang, d], "createLiteral")
        expect(str(P.Literal(v, lang, d)) == v, "str() of a literal is its value")


T_ = [("n", "http://a"), ("n", ""), ("b", 0), ("l", "v", "en", None), None, ("s", ""), ("s", "subject"), ("l", "", None, None), ("n", "http://b")]


def fixed():
    for cn in NAMES:
        k = len(NAMES[cn])
        for comps in itertools.islice(itertools.product(T_[:5], repeat=k), 0, None, 5 if k == 4 else 1):
            for sub in ((), ((0, T_[8]),), ((1, None), (2, T_[3])), ((k - 1, T_[1]),)):
                yield ("value", cn, comps, sub, "datatype" if cn != "Literal" else "graph")
        for n in range(9):
            yield ("length", cn, tuple(T_[i] for i in range(n)))
    for n in list(range(-12, 12)) + [255, 256, 10**6, -10**6, 2**31, 2**63, -2**63, 10**30] + [x + d for x in mined_ints() for d in (-1, 0, 1)]:
        yield ("int", n, None)
        yield ("int", n, "http://d")
        yield ("int", n, XSD + "long")
    for off in (None, 0, 60, -330, 1439):
        for us in (0, 1, 999999, 120000):
            for h in (0, 12, 23):
                yield ("dt", 2024, 2, 29, h, 0, 0, us, off, None)
                yield ("dt", 1, 1, 1, h, 59, 59, us, off, "http://d")
    for v in ["", "x", "\n", "\U0001F600", "true", "1"] + mined_strings():
        for lang in (None, "en", "EN-us", ""):
            for dt in (None, "http://d", XSD + "string"):
                yield ("str", v, lang, dt)


def cases(r):
    while True:
        k = r.random()
        pool = T_ + [("n", rand_iri(r)), ("l", rand_str(r), r.choice(LANGS), None), ("s", rand_str(r))]
        if k < 0.5:
            cn = r.choice(list(NAMES))
            n = len(NAMES[cn])
            comps = tuple(r.choice(pool) for _ in range(n))
            sub = tuple((i, r.choice(pool)) for i in range(n) if r.random() < 0.5)
            extra = r.choice(["x", "graph", "value", "Subject", "_fields", "count", "index"] + [s for s in mined_strings() if s.isidentifier()])
            yield ("value", cn, comps, sub, extra)
        elif k < 0.6:
            yield ("length", r.choice(list(NAMES)), tuple(r.choice(pool) for _ in range(r.randrange(9))))
        elif k < 0.7:
            yield ("int", r.randrange(-10**r.randrange(1, 25), 10**r.randrange(1, 25)), r.choice([None, "http://d", XSD + "int"]))
        elif k < 0.8:
            yield ("dt", r.randrange(1, 9999), r.randrange(1, 13), r.randrange(1, 28), r.randrange(24), r.randrange(60), r.randrange(60),
                   r.choice([0, r.randrange(10**6)]), r.choice([None, 0, r.randrange(-1439, 1440)]), r.choice([None, "http://d"]))
        else:
            yield ("str", rand_str(r, surrogates=True), r.choice([None, ""] + LANGS), r.choice([None, rand_iri(r)]))

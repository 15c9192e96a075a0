"""C13: assigning to resource keys."""
from .res import *


def decode(w, d):
    """case data -> (python value, [given elements] or single)"""
    k = d[0]
    if k == "seq":
        xs = [decode(w, e) for e in d[2]]
        return {"list": list, "set": set, "frozenset": frozenset, "tuple": tuple}[d[1]](xs)
    if k == "res":
        return w.cs[d[2]](w.g, w.env.term(d[1]))
    if k == "int":
        return d[1]
    return w.env.term(d)


def obj_of(w, v, lang, dt):
    """-> (term stored, resource or None)"""
    P = w.P
    if isinstance(v, P.Literal):
        return v, None
    if isinstance(v, w.cs["Resource"]):
        return v.subject, v
    if w.isnode(v):
        return v, v
    if isinstance(v, str):
        return P.Literal(v, lang, dt), None
    return P.Literal(str(v), None, P.NamedNode(XSD + "integer")), None


def step_set(w, op):
    P = w.P
    k, d = op[1], op[2]
    key, v = w.key(k), decode(w, d)
    p = P.NamedNode(FULL[k[1]])
    sc = w.select(k)[1]
    seq = d[0] == "seq"
    lang = dt = None
    if k[0] == "plain" and sc:
        lang = w.cls.lang
    elif k[0] == "lang":
        lang = k[2]
    elif k[0] == "dt":
        dt = P.NamedNode(k[2])
    given = [obj_of(w, x, lang, dt) for x in (v if seq else [v])]

    def admitted(o, res):
        if k[0] == "plain":
            return True
        if k[0] == "cls":
            c = w.cs[k[2]]
            return res is not None and (isinstance(res, c) if isinstance(res, w.cs["Resource"]) else w.instance_of(res, c))
        if res is not None:
            return True
        if k[0] == "lang":
            return o.language is not None and lm(o.language, k[2])
        return o.datatype == k[2]
    refused = sc and seq if k[0] == "plain" else not all(admitted(*x) for x in given)
    if seq and any(a[0] == b[0] and admitted(*a) != admitted(*b) for a in given for b in given):
        return "skip"    # one subject given both as an instance of the class and as a plain node: unspecified
    lab = f"resource[{key!r}] = {safe_repr(v)}"
    n_before = len(given)
    got = outcome(lambda: w.r.__setitem__(key, v))
    if refused:
        expect(got[0] == "raise" and isinstance(got[1], ValueError), f"{lab}: should be refused with ValueError", got)
        w.same(lab + " (refused)")
        return
    expect(got[0] == "ok", f"{lab}: should be accepted", got)
    old = [t[2] for t in w.model if t[0] == w.subject and t[1] == p]

    def governed(o):
        lit = isinstance(o, P.Literal)
        if k[0] == "plain":
            x = given[0][0] if not seq else None
            if sc and not seq and isinstance(x, P.Literal) and x.language:
                return not (lit and o.language is not None) or lm(o.language, x.language)
            return True
        if k[0] == "lang":
            return (not lit) or (o.language is not None and lm(o.language, k[2])) or (sc and o.datatype is not None)
        if k[0] == "dt":
            return sc or not lit or o.datatype == k[2]
        return sc or (not lit and w.instance_of(o, w.cs[k[2]]))
    gone = [o for o in old if governed(o)]
    for o in gone:
        w.model.discard((w.subject, p, o))
    for o, _ in given:
        w.model.add((w.subject, p, o))
    w.same(lab)


def execute(case):
    cls, subj, ts, ops = case
    w = World(cls, subj, ts)
    for op in ops:
        if op[0] == "set":
            if step_set(w, op) == "skip":
                return
        elif op[0] == "del":
            w.step_read(op)


VALS = [("l", "n", "en", None), ("l", "n", "en-us", None), ("l", "n", "fr", None), ("l", "n", None, None), ("l", "7", None, DTS[0]), ("l", "x", None, DTS[2]),
        ("n", EX + "y"), ("b", 0), ("l", "", "en", None), ("l", "", None, None), ("l", "", None, DTS[0]), ("s", "text"), ("s", ""), ("int", 5), ("int", -3), ("res", ("n", EX + "y"), "Base"), ("res", ("b", 0), "B"), ("res", ("n", EX + "z"), "A2")]


def rand_val(r):
    if r.random() < 0.35:
        return ("seq", r.choice(["list", "set", "frozenset", "tuple"]), tuple(r.choice(VALS) for _ in range(r.randrange(0, 4))))
    return r.choice(VALS)


def fixed():
    n = lambda x: ("n", EX + x)
    objs = [("l", "v", "en", None), ("l", "v", "en-us", None), ("l", "v", "fr", None), ("l", "v", None, None), ("l", "1", None, DTS[0]), ("l", "1", None, DTS[2]), n("y"), ("b", 0)]
    for p in ("rdfs:label", "ex:m", "ex:s"):
        ts = [(n("x"), ("n", FULL[p]), o) for o in objs] + [(n("y"), ("n", FULL[p]), objs[0]), (n("x"), n("k"), objs[0]), (n("y"), ("n", RDF + "type"), n("A2")), (("b", 0), ("n", RDF + "type"), n("B"))]
        for k in [("plain", p), ("lang", p, "en"), ("lang", p, "en-us"), ("lang", p, "de"), ("dt", p, DTS[0]), ("dt", p, DTS[1]), ("cls", p, "A"), ("cls", p, "B"), ("cls", p, "Base")]:
            for v in VALS:
                yield ("Base", n("x"), tuple(ts), (("set", k, v),))
                yield ("Base", n("x"), tuple(ts), (("set", k, ("seq", "set", (v,))),))
            for v in [("seq", "list", ()), ("seq", "tuple", (VALS[0], VALS[1])), ("seq", "list", (VALS[6], VALS[13], VALS[8]))]:
                yield ("Base", n("x"), tuple(ts), (("set", k, v),))
    for m in big_sizes(400):
        for p, of in (("ex:m", ("lang", "bare", "dt", "node")), ("ex:m", ("bare",)), ("ex:s", ("lang", "node")), ("ex:m", ("lang",))):
            ts = crowd(m, p=p, of=of)
            for k in (("plain", p), ("lang", p, "en"), ("dt", p, DTS[0]), ("cls", p, "Base")):
                yield ("Base", n("x"), ts, (("set", k, VALS[0] if k[0] != "cls" else VALS[11]),))
        yield ("Base", n("x"), crowd(3), (("set", ("plain", "ex:m"), ("seq", "list", tuple(("s", "w%d" % i) for i in range(m)))), ("set", ("plain", "ex:m"), ("s", "one"))))


def cases(r):
    while True:
        cls, subj, ts = rand_world(r)
        if r.random() < 0.04:
            ts = list(ts) + list(crowd(r.choice(big_sizes(400)), subj, r.choice(["ex:m", "ex:s"])))
        ps = [p for p in preds_for(cls) if p != "rdf:type"]
        ops = []
        for _ in range(r.randrange(1, 6)):
            if r.random() < 0.85:
                ops.append(("set", rand_key(r, ps, False), rand_val(r)))
            else:
                ops.append(("del", rand_key(r, ps)))
        yield (cls, subj, tuple(ts), tuple(ops))

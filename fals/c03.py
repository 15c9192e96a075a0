"""C03: histories of dataset updates against a model set of quads"""
import itertools
from .lib import *

A, B, L = ("n", "http://a/x"), ("n", "http://a/y"), ("l", "v", "en", None)
G1, G2 = ("n", "http://g/1"), ("n", "http://g/2")


def quads_of(ds):
    return [tuple(q) for q in ds]


def names(ds):
    return sorted(repr((type(g.uri).__name__, str(g.uri))) for g in ds.graphs)


def observe(env, ds, model, label, uni, full):
    P = env.P
    before = names(ds)
    lst = list(ds)
    expect(len(lst) == len(set(lst)), f"{label}: iteration repeats a quad", lst)
    expect({tuple(q) for q in lst} == model, f"{label}: iteration differs from the set of quads", lst, model)
    for q in lst:
        expect(len(q) == 4 and (q.subject, q.predicate, q.object, q.graph) == tuple(q), f"{label}: iteration yields quads", q)
    expect(len(ds) == len(model), f"{label}: len", len(ds), len(model))
    arr = ds.toArray()
    expect(len(arr) == len(model) and {tuple(q) for q in arr} == model, f"{label}: toArray", arr)
    ss, ps, os_, gs = [[env.term(x) for x in u] for u in uni]
    for s, p, o in itertools.product(ss, ps, os_):
        anyg = False
        for g in gs:
            w = (s, p, o, g) in model
            expect((P.Quad(s, p, o, g) in ds) == w, f"{label}: membership of {(s, p, o, g)}")
        anyg = any(q[:3] == (s, p, o) for q in model)
        expect((P.Triple(s, p, o) in ds) == anyg, f"{label}: membership of triple {(s, p, o)}")
    if full:
        pats = itertools.product([None] + ss, [None] + ps, [None] + os_, [None] + [g for g in gs if g is not None])
        for n, pt in enumerate(pats):
            if n > 220:
                break
            want = {q for q in model if all(x is None or x == y for x, y in zip(pt, q))}
            got = list(ds.match(*pt))
            expect(len(got) == len(set(got)), f"{label}: match{pt} repeats a quad", got)
            expect({tuple(q) for q in got} == want, f"{label}: match{pt}", got, want)
        p0 = ps[0]
        expect({tuple(q) for q in ds.match(predicate=p0)} == {q for q in model if q[1] == p0}, f"{label}: match by keyword")
        g0 = next((g for g in gs if g is not None), None)
        if g0 is not None:
            expect({tuple(q) for q in ds.match(graph=g0)} == {q for q in model if q[3] == g0}, f"{label}: match by graph keyword")
    expect({tuple(q) for q in ds} == model, f"{label}: reading changed the dataset")
    expect(names(ds) == before, f"{label}: reading created or removed a graph", before, names(ds))


def execute(case):
    uni, seq = case
    env = Env()
    P = env.P
    ds, model = P.Dataset(), set()
    live = []      # (graph object, name term or None when no longer in the dataset)
    for n, op in enumerate(seq):
        k = op[0]
        label = f"step {n + 1} ({k})"
        if k == "add":
            q = env.quad(op[1])
            ds.add(q)
            model = model | {tuple(q)}
        elif k == "remove":
            q = env.quad(op[1])
            before = names(ds)
            try:
                ds.remove(q)
            except KeyError:
                expect(tuple(q) not in model, f"{label}: removing a present quad raised KeyError", q)
                expect(names(ds) == before, f"{label}: a refused removal created a graph", before, names(ds))
            else:
                expect(tuple(q) in model, f"{label}: removing an absent quad did not raise KeyError", q)
                model = model - {tuple(q)}
        elif k in ("addAll", "addDs"):
            qs = [env.quad(x) for x in op[1]]
            src = qs
            if k == "addDs":
                src = P.Dataset()
                for q in qs:
                    src.add(q)
            r = ds.addAll(src)
            expect(r is ds, f"{label}: returns the dataset")
            if k == "addDs":
                expect({tuple(q) for q in src} == {tuple(q) for q in qs}, f"{label}: the source changed")
            model = model | {tuple(q) for q in qs}
            e = P.RDFEnvironment()
            for what, given in (("()", []), ("(sequence)", [tuple(qs)]), ("(generator)", [iter(qs)]), ("(the argument)", [src])):
                c = e.createDataset(*given)
                expect(isinstance(c, P.Dataset) and c is not src and c is not ds, f"{label}: createDataset{what} returns a new dataset", c)
                want = {tuple(q) for q in qs} if given else set()
                expect({tuple(q) for q in c} == want and len(c) == len(want), f"{label}: createDataset{what} holds the given quads", list(c))
                c.add(P.Quad(P.NamedNode("http://fresh/"), P.NamedNode("http://fresh/"), P.NamedNode("http://fresh/"), None))
            expect({tuple(q) for q in src} == {tuple(q) for q in qs}, f"{label}: the argument after updating the made dataset")
        elif k == "removeMatches":
            pt = [env.term(x) for x in op[1]]
            r = ds.removeMatches(*pt)
            expect(r is ds, f"{label}: returns the dataset")
            model = {q for q in model if not all(x is None or x == y for x, y in zip(pt, q))}
        elif k == "add_graph":
            _, ts, own, named = op
            g = P.Graph(env.term(own)) if own is not None else P.Graph()
            ts = {tuple(env.triple(t)) for t in ts}
            for t in ts:
                g.add(P.Triple(*t))
            nm = env.term(named)
            name = nm or env.term(own)
            before = names(ds)
            try:
                if named is None:
                    ds.add_graph(g)
                else:
                    ds.add_graph(g, nm)
            except ValueError:
                expect(not name, f"{label}: a named graph was refused", name)
                expect(names(ds) == before, f"{label}: a refused graph changed the dataset")
            else:
                expect(bool(name), f"{label}: a graph without a name was accepted")
                live = [(h, None if x == name else x) for h, x in live] + [(g, name)]
                model = {q for q in model if q[3] != name} | {t + (name,) for t in ts}
            expect({tuple(t) for t in g} == ts, f"{label}: the added graph changed")
        elif k in ("gadd", "gremove"):
            if live:
                g, name = live[op[1] % len(live)]
                t = env.triple(op[2])
                mine = {tuple(x) for x in g}
                if k == "gadd":
                    g.add(t)
                    if name is not None:
                        model = model | {tuple(t) + (name,)}
                elif tuple(t) in mine:
                    g.remove(t)
                    if name is not None:
                        model = model - {tuple(t) + (name,)}
        observe(env, ds, model, label, uni, n == len(seq) - 1)


UNI = ((A, B), (A, B), (A, L), (G1, G2, None))


def fixed():
    q = [(A, A, A, G1), (A, A, A, G2), (A, A, A, None), (B, B, L, G1)]
    ops = [("add", x) for x in q] + [("remove", x) for x in q] + \
        [("removeMatches", (A, None, None, None)), ("removeMatches", (None, None, None, G1)), ("removeMatches", (None, None, L, G1)), ("removeMatches", (None,) * 4),
         ("addAll", tuple(q)), ("addDs", (q[1], q[3], q[2])), ("add_graph", ((A, B, A),), None, G1), ("add_graph", ((A, B, A), (A, A, A)), G2, None),
         ("add_graph", (), None, None), ("add_graph", ((B, B, L),), G1, G2), ("gadd", 0, (B, A, L)), ("gremove", 0, (A, B, A))]
    for k in (1, 2, 3):
        for i, s in enumerate(itertools.product(ops, repeat=k)):
            if k < 3 or i % 11 == 0:
                yield (UNI, s)


def cases(r):
    while True:
        ns, ls = term_pool(r, r.choice([2, 3, 4]))
        S = ns[:r.choice([1, 2])]
        Pp = [x for x in ns if x[0] == "n"][:r.choice([1, 2])] or [A]
        O = (ns + ls)[:]
        r.shuffle(O)
        O = O[:r.choice([1, 2, 3])]
        G = [x for x in (G1, G2, None, ("b", 5), ("n", "http://a/x"), ("n", ""), ("n", "http://g/" + r.choice("12345")))]
        r.shuffle(G)
        G = G[:r.choice([1, 2, 3])]
        uni = (tuple(S), tuple(Pp), tuple(O), tuple(dict.fromkeys(G)))
        tr = lambda: (r.choice(S), r.choice(Pp), r.choice(O))
        qd = lambda: tr() + (r.choice(G),)
        pat = lambda: tuple(None if r.random() < 0.5 else x for x in qd())
        gn = lambda: r.choice([x for x in G if x is not None and x[0] == "n" and x[1]] or [G1])
        seq = []
        for _ in range(r.randrange(1, 12)):
            k = r.random()
            if k < 0.35:
                seq.append(("add", qd()))
            elif k < 0.55:
                seq.append(("remove", qd()))
            elif k < 0.65:
                seq.append(("removeMatches", pat()))
            elif k < 0.75:
                seq.append((r.choice(["addAll", "addDs"]), tuple(qd() for _ in range(r.randrange(0, 5)))))
            elif k < 0.88:
                own, nm = r.choice([(None, gn()), (gn(), None), (gn(), gn()), (None, None)])
                seq.append(("add_graph", tuple(tr() for _ in range(r.randrange(0, 4))), own, nm))
            else:
                seq.append((r.choice(["gadd", "gadd", "gremove"]), r.randrange(3), tr()))
        if r.random() < 0.05:
            n = r.choice([x for x in mined_ints() if 2 < x <= 1500] or [60]) + r.randrange(-1, 3)
            seq.insert(r.randrange(len(seq)), ("addAll", tuple((S[0], Pp[0], ("l", str(i), None, None), G[0]) for i in range(n))))
        yield (uni, tuple(seq))


def shrink(case):
    uni, seq = case
    for i in range(len(seq)):
        yield (uni, seq[:i] + seq[i + 1:])
    for i, op in enumerate(seq):
        if op[0] in ("addAll", "addDs") and len(op[1]) > 1:
            h = len(op[1]) // 2
            yield (uni, seq[:i] + ((op[0], op[1][:h]),) + seq[i + 1:])
            yield (uni, seq[:i] + ((op[0], op[1][h:]),) + seq[i + 1:])

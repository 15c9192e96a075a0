"""histories of graph updates"""
import itertools
from .lib import *


def created(env, ts, h):
    """graphs made by the environment hold exactly the given triples and are independent of everything else"""
    P = env.P
    e = P.RDFEnvironment()
    extra = P.Triple(P.NamedNode("http://fresh/2"), P.NamedNode("http://fresh/"), P.NamedNode("http://fresh/"))
    for what, given, want in (("()", [], ()), ("(sequence)", [tuple(ts)], ts), ("(generator)", [iter(ts)], ts), ("(graph)", [h], set(h))):
        c = e.createGraph(*given)
        expect(isinstance(c, P.Graph) and c is not h, f"createGraph{what} returns a new graph", c)
        observers(env, c, set(want), f"createGraph{what}")
        c.add(extra)
    expect(extra not in h, "the argument of createGraph after updating its result")


def observers(env, g, model, label, full=True):
    P = env.P
    lst = list(g)
    expect(len(lst) == len(set(lst)), f"{label}: iteration repeats a triple", lst)
    expect(set(lst) == model, f"{label}: iteration differs from the set of triples", lst, model)
    expect(len(g) == len(model), f"{label}: len", len(g), len(model))
    arr = g.toArray()
    expect(set(arr) == model and len(arr) == len(model), f"{label}: toArray", arr, model)
    for t in model:
        expect(t in g, f"{label}: member reported absent", t)


def matches(env, g, model, label, terms):
    for s, p, o in terms:
        want = {t for t in model if (s is None or t[0] == s) and (p is None or t[1] == p) and (o is None or t[2] == o)}
        got = list(g.match(s, p, o))
        expect(len(got) == len(set(got)), f"{label}: match{(s, p, o)} repeats a triple", got)
        expect(set(got) == want, f"{label}: match{(s, p, o)}", got, want)
        for t in got:
            expect(len(t) == 3 and t.subject == t[0] and t.object == t[2], "match yields triples", t)
    for nm, i in (("subjects", 0), ("predicates", 1), ("objects", 2)):
        got = list(getattr(g, nm)())
        want = {t[i] for t in model}
        expect(len(got) == len(set(got)), f"{label}: {nm}() repeats a term", got)
        expect(set(got) == want, f"{label}: {nm}()", got, want)


def keep(env, g, model):
    env.__dict__.setdefault("kept", []).append((g, frozenset(model)))


def independent(env, g, model, universe):
    """graphs that took part in the history: emptying one by patterns or one by one changes no other"""
    kept = env.__dict__.get("kept", [])[-4:]
    for j, (h, hm) in enumerate(kept):
        observers(env, h, hm, "graph used earlier in the history")
        t = next(iter(sorted(hm, key=repr)), None)
        if t is not None and j % 2 == 0:
            expect(h.remove(t) is h, "remove returns the graph itself")
        h.removeMatches(None, None, None)
        observers(env, h, set(), "graph emptied by removeMatches")
        matches(env, h, set(), "graph emptied by removeMatches", [(None, None, None)])
        observers(env, g, model, "graph after emptying another one")
        for h2, m2 in kept[j + 1:]:
            observers(env, h2, m2, "graph after emptying another one")
    if kept:
        matches(env, g, model, "graph after emptying another one", some_patterns(env, universe)[:60])
        for t in list(model)[:3]:
            expect(g.removeMatches(*t) is g, "removeMatches returns the graph itself")
            model = model - {t}
            observers(env, g, model, "graph after removing one triple by pattern")
    return model


def apply(env, g, model, op, universe):
    """apply one op to the graph and the model set; checks results and refusals. returns (g, model)"""
    P = env.P
    k = op[0]
    if k == "add":
        t = env.triple(op[1])
        r = g.add(t)
        expect(r is g, "add returns the graph itself")
        model = model | {t}
    elif k == "remove":
        t = env.triple(op[1])
        try:
            r = g.remove(t)
        except KeyError:
            expect(t not in model, "remove of a present triple raised KeyError", t)
        else:
            expect(t in model, "remove of an absent triple did not raise KeyError", t)
            expect(r is g, "remove returns the graph itself")
            model = model - {t}
    elif k in ("addAll", "addAllG", "addAllGen"):
        ts = [env.triple(x) for x in op[1]]
        src = ts
        if k == "addAllG":
            src = P.Graph()
            for t in ts:
                src.add(t)
        elif k == "addAllGen":
            src = (t for t in ts)
        r = g.addAll(src)
        expect(r is g, "addAll returns the graph itself")
        if k == "addAllG":
            observers(env, src, set(ts), "addAll: source graph")
            keep(env, src, set(ts))
        elif k == "addAll":
            expect(src == [env.triple(x) for x in op[1]], "addAll: source list unchanged")
        model = model | set(ts)
    elif k == "removeMatches":
        s, p, o = [env.term(x) for x in op[1]]
        r = g.removeMatches(s, p, o)
        expect(r is g, "removeMatches returns the graph itself")
        model = {t for t in model if not ((s is None or t[0] == s) and (p is None or t[1] == p) and (o is None or t[2] == o))}
    elif k in ("merge", "mergeInto"):
        ts = [env.triple(x) for x in op[1]]
        h = P.Graph()
        for t in ts:
            h.add(t)
        a, b = (g, h) if k == "merge" else (h, g)
        n = a.merge(b)
        expect(n is not g and n is not h, "merge returns a new graph")
        observers(env, n, model | set(ts), "merge result")
        observers(env, g, model, "merge operand")
        observers(env, h, set(ts), "merge operand")
        matches(env, n, model | set(ts), "merge result", some_patterns(env, universe))
        keep(env, n, model | set(ts))
        keep(env, h, set(ts))
        n = a.merge(b)
        # the result is independent of its operands
        extra = P.Triple(P.NamedNode("http://fresh/"), P.NamedNode("http://fresh/"), P.NamedNode("http://fresh/"))
        n.add(extra)
        observers(env, g, model, "operand after updating the merge result")
        observers(env, h, set(ts), "operand after updating the merge result")
        created(env, ts, h)
    elif k == "matchpart":
        # an abandoned match changes nothing
        s, p, o = [env.term(x) for x in op[1]]
        it = iter(g.match(s, p, o))
        next(it, None)
    elif k == "mergeSelf":
        n = g.merge(g)
        expect(n is not g, "merge returns a new graph")
        observers(env, n, model, "self-merge result")
        observers(env, g, model, "self-merge operand")
    return g, model


def some_patterns(env, universe):
    ss = [None] + [env.term(x) for x in universe[0]]
    ps = [None] + [env.term(x) for x in universe[1]]
    os_ = [None] + [env.term(x) for x in universe[2]]
    return list(itertools.product(ss, ps, os_))


def small_universe():
    A, B, L = ("n", "http://a/x"), ("n", "http://a/y"), ("l", "v", "en", None)
    ts = [(A, A, A), (A, B, A), (B, B, L)]
    return ((A, B), (A, B), (A, B, L)), ts


def fixed_histories(n=3):
    uni, ts = small_universe()
    A, B, L = ("n", "http://a/x"), ("n", "http://a/y"), ("l", "v", "en", None)
    ops = [("add", t) for t in ts] + [("remove", t) for t in ts] + \
        [("removeMatches", (A, None, None)), ("removeMatches", (None, B, None)), ("removeMatches", (None, None, A)),
         ("removeMatches", (None, None, None)), ("addAll", (ts[0], ts[2], ts[0])), ("addAllG", (ts[1], ts[2])),
         ("merge", (ts[0], ts[1])), ("mergeInto", (ts[2],))]
    for k in range(1, n + 1):
        for seq in itertools.product(ops, repeat=k):
            yield (uni, seq)


def rand_history(r):
    ns, ls = term_pool(r, r.choice([2, 3, 4]))
    odd = r.random() < 0.3
    # Any term in any position is accepted by Graph; terms are shared between positions
    S = ns[:r.choice([1, 2, 3])]
    P_ = [x for x in ns if x[0] == "n"][:r.choice([1, 2])] or [("n", "http://p")]
    if odd:
        S, P_ = S + [("l", "v", None, None)], P_ + [("b", 0)]
    O = (ns + ls)[:]
    r.shuffle(O)
    O = O[:r.choice([2, 3, 4])]
    uni = (tuple(S), tuple(P_), tuple(O))

    def tr():
        return (r.choice(S), r.choice(P_), r.choice(O))

    def pat():
        return tuple(None if r.random() < 0.5 else x for x in tr())
    big = r.random() < 0.08
    seq = []
    for _ in range(r.randrange(1, 14)):
        k = r.random()
        if k < 0.4:
            seq.append(("add", tr()))
        elif k < 0.65:
            seq.append(("remove", tr()))
        elif k < 0.75:
            seq.append(("removeMatches", pat()))
        elif k < 0.85:
            seq.append((r.choice(["addAll", "addAllG", "addAllGen"]), tuple(tr() for _ in range(r.randrange(0, 5)))))
        elif k < 0.92:
            seq.append((r.choice(["merge", "mergeInto"]), tuple(tr() for _ in range(r.randrange(0, 4)))))
        elif k < 0.96:
            seq.append(("matchpart", pat()))
        else:
            seq.append(("mergeSelf",))
    if big:
        m = r.choice([n for n in mined_ints() if 2 < n <= 3000] or [100])
        n = max(1, m + r.randrange(-1, 3))
        n = n if r.random() < 0.5 else r.randrange(1, 200)
        seq.insert(r.randrange(len(seq)), ("addAll", tuple((S[0], P_[0], ("l", str(i), None, None)) for i in range(n))))
    return (uni, tuple(seq))


def shrink(case):
    uni, seq = case
    for i in range(len(seq)):
        yield (uni, seq[:i] + seq[i + 1:])
    for i, op in enumerate(seq):
        if len(op) > 1 and op[0] in ("addAll", "addAllG", "addAllGen", "merge", "mergeInto") and len(op[1]) > 1:
            h = len(op[1]) // 2
            yield (uni, seq[:i] + ((op[0], op[1][:h]),) + seq[i + 1:])
            yield (uni, seq[:i] + ((op[0], op[1][h:]),) + seq[i + 1:])

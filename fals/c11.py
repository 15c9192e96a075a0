"""C11: blank node identity. A case is a history of parses."""
import io
import re
import threading

from .lib import *

LABEL = re.compile(r"_:([A-Za-z0-9_\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u02ff])([A-Za-z0-9_.\u00b7:-]*[A-Za-z0-9_\u00b7:-])?")
BAD = {"nt": "_:a <http://p/> _:b .\n_:a <http://p/ _:b .\n", "nq": "_:a <http://p/> _:b <http://g/> .\n\"x\" .\n",
       "ttl": "_:a <http://p/> _:b .\n_:a <http://p/> und:x .\n", "nts": "_:a <http://p/> _:b .\n_:c <http://p/> zzz .\n"}


def doc(kind, pairs):
    """text whose statements, numbered by their predicate, relate the given nodes"""
    if kind == "json":
        return [{"@id": "_:" + a, "http://p/%d" % i: [{"@id": "_:" + b}]} for i, (a, b) in enumerate(pairs)]
    out = []
    for i, (a, b) in enumerate(pairs):
        f = lambda x: "[]" if x == "[]" else "_:" + x
        g = ""
        if kind in ("nq", "nqs"):
            g = ["", " <http://g/>", " _:" + (a if a != "[]" else "x")][i % 3]
        out.append("%s <http://p/%d> %s%s ." % (f(a), i, f(b), g))
    return "\n".join(out) + "\n"


def run(kind, text, sink=None):
    from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
    if kind == "json":
        return list(jsonld_parser.parse_json(text, sink))
    if kind in ("nt", "nq"):
        return list((ntriples_parser if kind == "nt" else nquads_parser).parse(text, sink))
    if kind in ("nts", "nqs"):
        return list((ntriples_parser if kind == "nts" else nquads_parser).parse(io.StringIO(text), sink))
    return list(turtle_parser.parse(text, sink))


class Stopped(Exception):
    pass


class Stops:
    """a sink that refuses further statements"""

    def __init__(self, n):
        self.n, self.got = n, []

    def add(self, t):
        if len(self.got) >= self.n:
            raise Stopped()
        self.got.append(t)
        return self

    def addAll(self, ts):
        for t in ts:
            self.add(t)
        return self

    def __iter__(self):
        return iter(self.got)


def check_parse(kind, pairs, got, where):
    """nodes of one parse; returns them"""
    from pymantic import primitives as P
    expect(len(got) == len(pairs), f"{where}: one statement per line", got)
    nodes, anon = {}, []
    for t in got:
        i = int(str(t[1])[len("http://p/"):])
        pr = list(zip(pairs[i], (t[0], t[2])))
        if kind in ("nq", "nqs") and i % 3 == 2:
            pr.append((pairs[i][0] if pairs[i][0] != "[]" else "x", t[3]))
        for lab, n in pr:
            expect(isinstance(n, P.BlankNode), f"{where}: {lab} is a blank node", n)
            if lab == "[]":
                anon.append(n)
            else:
                old = nodes.setdefault(lab, n)
                expect(old is n and old == n, f"{where}: label {lab} denotes one node", t)
    alln = list(nodes.values()) + anon
    expect(len(set(map(id, alln))) == len(alln) and len(set(alln)) == len(alln), f"{where}: different labels and every [] denote different nodes ({nodes}, {anon})", pairs)
    return alln


def execute(case):
    kind, steps = case
    from pymantic import primitives as P
    if kind == "nodes":
        return fresh_nodes(steps)
    seen = []        # all nodes of all parses, kept alive
    lists = []
    graphs, datasets = P.Graph(), P.Dataset()

    def done(nodes, where):
        for n in nodes:
            expect(not any(n is m or n == m for m in seen), f"{where}: a node of another parse", n)
        seen.extend(nodes)
        ids = [n.toNT() for n in seen]
        expect(len(set(ids)) == len(ids), f"{where}: identifiers of live nodes differ", ids[-6:])
        for s in ids:
            expect(LABEL.fullmatch(s), f"{where}: a legal label", s)
    for no, st in enumerate(steps):
        where = f"step {no} of {steps!r}"
        if st[0] == "bad":
            k = st[1]
            try:
                if k == "nts":
                    run("nts", BAD[k])
                else:
                    run(k, BAD[k])
            except Exception:  # noqa
                pass
            else:
                raise Fail(f"{where}: malformed text accepted")
            continue
        if st[0] == "broken":
            # a parse stopped by its sink after n statements; the nodes it handed out stay alive
            k, pairs, n = st[1], st[2], st[3]
            pairs = tuple(tuple("z" if x == "[]" else x for x in p) for p in pairs)
            sink = Stops(n)
            try:
                run(k, doc(k, pairs), sink)
            except Stopped:
                pass
            part = []
            for t in sink.got:
                for x in t:
                    if isinstance(x, P.BlankNode) and not any(x is y for y in part):
                        part.append(x)
            done(part, where)
            lists.append(sink.got)
            continue
        if st[0] == "par":
            # concurrent parses of one text by several threads through the shared parser objects
            k, pairs, n = st[1], st[2], st[3]
            text = doc(k, pairs)
            res = [None] * n
            bar = threading.Barrier(n)

            def work(i):
                try:
                    bar.wait(5)
                    res[i] = run(k, text)
                except Exception as e:  # noqa
                    res[i] = e
            ths = [threading.Thread(target=work, args=(i,)) for i in range(n)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            for i in range(n):
                expect(isinstance(res[i], list), f"{where}: a parse in thread {i} failed", res[i])
                done(check_parse(k, pairs, res[i], f"{where}, thread {i}"), f"{where}, thread {i}")
            lists.append(res)
            continue
        if st[0] == "inter":
            # two line-by-line parses, the second started while the first is reading its stream, in another thread
            k, p1, p2 = st[1], st[2], st[3]
            res = {}

            nested = st[4] if len(st) > 4 else None

            class Stream:
                def __init__(self, lines):
                    self.lines = lines

                def readline(self):
                    return self.lines.pop(0) if self.lines else ""

                def __iter__(self):
                    for i, l in enumerate(self.lines):
                        if i == 1 and nested:      # another parser, in this very thread
                            res["b"] = run(nested, doc(nested, p2))
                        elif i == 1:
                            th = threading.Thread(target=lambda: res.__setitem__("b", run(k, doc(k, p2))))
                            th.start()
                            th.join()
                        yield l
            from pymantic.parsers import nquads_parser, ntriples_parser
            par = ntriples_parser if k == "nt" else nquads_parser
            try:
                res["a"] = list(par.parse(Stream(doc(k, p1).splitlines(True))))
            except Exception as e:  # noqa
                raise Fail(f"{where}: a parse failed when another thread parsed meanwhile: {type(e).__name__}: {e}")
            done(check_parse(k, p1, res["a"], where), where)
            if "b" in res:
                done(check_parse(nested or k, p2, res["b"], where), where)
            lists.append(res)
            continue
        sink = None
        if st[0] == "into":
            # a parse that adds to the graph of the history
            sink = datasets if st[1] in ("json", "nq", "nqs") else graphs
        k, pairs = st[1], st[2]
        if k == "json" and any("[]" in p for p in pairs):
            continue
        if k not in ("ttl",) and any("[]" in p for p in pairs):
            pairs = tuple(tuple("z" if x == "[]" else x for x in p) for p in pairs)
        try:
            if sink is None:
                got = run(k, doc(k, pairs))
            else:
                old = list(sink)
                got = [t for t in run(k, doc(k, pairs), sink) if not any(t is o or tuple(t) == tuple(o) for o in old)]
        except Exception as e:  # noqa
            raise Fail(f"{where}: the parser does not accept {doc(k, pairs)!r}: {type(e).__name__}: {str(e)[:160]}")
        lists.append(got)
        done(check_parse(k, pairs, got, where), where)


def fresh_nodes(n):
    from pymantic import primitives as P
    env = P.RDFEnvironment()
    ns = [P.BlankNode() if i % 2 else env.createBlankNode() for i in range(n)]
    ids = [x.toNT() for x in ns]
    expect(len(set(ids)) == n and len(set(ns)) == n, f"{n} live nodes have different identifiers", ids[:5])
    for s in ids:
        expect(LABEL.fullmatch(s), "a legal label", s)
    for x in ns[:20]:
        expect(x == x and not (x != x) and hash(x) == hash(x) and x.toNT() == x.toNT(), "a node is itself", x)
    for x in ns[:20]:
        for y in ns[:20]:
            expect((x == y) == (x is y), "nodes are equal only if identical", x, y)


LABELS = ["a", "b", "x", "b0", "A", "a1", "a-b", "a.b", "1", "_x", "\u00e9", "ab", "a_", "0", "genid1", "a\u00b7"]
JL = ["a", "b", "x", "b0", "A", "a1", "ab", "c"]


def rand_pairs(r, kind):
    ls = r.sample(JL if kind == "json" else LABELS, r.choice([1, 2, 3, 4]))
    if kind == "ttl":
        ls = ls + ["[]"]
    return tuple((r.choice(ls), r.choice(ls)) for _ in range(r.choice([1, 2, 3, 5])))


def rand_step(r):
    k = r.random()
    if k < 0.12:
        return ("bad", r.choice(list(BAD)))
    if k < 0.2:
        kind = r.choice(["nt", "nq", "ttl", "json", "nts", "nqs"])
        return ("par", kind, rand_pairs(r, kind), r.choice([2, 3, 4]))
    if k < 0.28:
        kind = r.choice(["nt", "nq"])
        return ("inter", kind, rand_pairs(r, kind) + (("a", "b"),), rand_pairs(r, kind))
    kind = r.choice(["nt", "nq", "ttl", "json", "nts", "nqs"])
    if k < 0.4:
        return ("broken", kind, rand_pairs(r, kind), r.randrange(4))
    return (r.choice(["parse", "parse", "into"]), kind, rand_pairs(r, kind))


def fixed():
    ab = (("a", "b"), ("b", "a"), ("a", "a"))
    for n in (1, 2, 3, 100, 5000):
        yield ("nodes", n)
    ks = ("nt", "nq", "ttl", "json", "nts", "nqs")
    for k in ks:
        yield ("hist", (("parse", k, ab), ("parse", k, ab), ("parse", k, (("c", "a"),))))
        yield ("hist", (("into", k, ab), ("into", k, ab), ("bad", "nt"), ("into", k, (("c", "a"),))))
        yield ("hist", (("into", k, ab), ("broken", k, ab, 1), ("into", k, ab), ("parse", k, ab), ("into", k, ab)))
        for k2 in ks:
            yield ("hist", (("parse", k, ab), ("parse", k2, ab), ("parse", k, ab)))
        yield ("hist", (("par", k, ab * 5, 4), ("par", k, ab, 8)))
        for b in BAD:
            yield ("hist", (("parse", k, ab), ("bad", b), ("parse", k, ab), ("bad", b), ("bad", b), ("parse", k, ab)))
        for n in (0, 1, 2, 3):
            yield ("hist", (("parse", k, ab), ("broken", k, ab, n), ("parse", k, ab), ("broken", k, ab, n), ("broken", k, ab, 1), ("parse", k, ab)))
    yield ("hist", (("parse", "ttl", (("[]", "[]"), ("[]", "a"), ("a", "[]"))), ("parse", "ttl", (("[]", "[]"),))))
    for k in ("nt", "nq"):
        yield ("hist", (("inter", k, ab, ab), ("inter", k, ab * 2, ab), ("parse", k, ab)))
        for k2 in ("nt", "nq", "ttl", "json"):
            if k2 != k:
                yield ("hist", (("inter", k, ab, ab, k2), ("inter", k, ab * 2, ab, k2), ("parse", k, ab), ("parse", k2, ab)))
    for n in big_sizes(210):
        for k in ks:
            many = tuple(("l%d" % i, "l%d" % ((i * 7 + 1) % n)) for i in range(n)) + (("l0", "l%d" % (n - 1)),)
            yield ("hist", (("parse", k, many), ("parse", k, ab)))
    for l in LABELS:
        for m in LABELS:
            if l < m:
                for k in ("nt", "ttl", "nq"):
                    yield ("hist", (("parse", k, ((l, m), (m, l), (l, l))),))


def cases(r):
    while True:
        yield ("hist", tuple(rand_step(r) for _ in range(r.choice([1, 2, 3, 5]))))


def shrink(case):
    k, st = case
    if k == "hist":
        for i in range(len(st)):
            yield (k, st[:i] + st[i + 1:])
        for i, s in enumerate(st):
            if s[0] in ("parse", "par", "into"):
                for j in range(len(s[2])):
                    yield (k, st[:i] + (s[:2] + (s[2][:j] + s[2][j + 1:],) + s[3:],) + st[i + 1:])

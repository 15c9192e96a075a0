"""C21: graph store operations against a recording transport"""
from urllib.parse import unquote_plus, urlsplit
from .lib import *
from .httpwire import wire, split, pairs

DS = ["http://h/data", "http://h/store/data", "https://h:81/a/b/c"]
GOOD = {"get": (200,), "delete": (200, 202), "put": (200, 201, 204), "post": (200, 201, 204), "post0": (201,), "patch": (200, 201, 204)}
STATUS = [200, 201, 202, 203, 204, 205, 206, 300, 304, 400, 401, 403, 404, 405, 409, 410, 412, 415, 500, 501, 503]
BODIES = {
    "text/plain": '<http://a/s> <http://a/p> "\\u00E9" .\n',
    "text/turtle": '<http://a/s> <http://a/p> "\u00e9" . <#x> <http://a/p> "y" .',
    "text/rdf+n3": '<http://a/s> <http://a/p> "\u00e9" . <#x> <http://a/p> "y" .',
    "application/rdf+xml": '<?xml version="1.0" encoding="utf-8"?><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:a="http://a/">'
    '<rdf:Description rdf:about="http://a/s"><a:p>\u00e9</a:p></rdf:Description><rdf:Description rdf:about="#x"><a:p>y</a:p></rdf:Description></rdf:RDF>',
}


def mkgraph(ts):
    import rdflib
    g = rdflib.Graph()
    for s, p, o in ts:
        g.add((rdflib.URIRef(s), rdflib.URIRef(p), rdflib.Literal(o)))
    return g


def execute(case):
    import rdflib
    from pymantic.sparql import UpdateableGraphStore, PatchableGraphStore
    cfg, ops = case
    ds, style, vf = cfg
    with wire() as w:
        kw = {}
        if style is not None:
            kw["param_style"] = style
        if vf is not None:
            kw["verify"] = vf
        st = PatchableGraphStore("http://h/sparql", ds, **kw)
        for n, (op, g, ts, status, ctype) in enumerate(ops):
            nm = f"operation {n + 1}: {op} of {g!r}"
            w.log.clear()
            body = BODIES.get(ctype.split(";")[0], "")
            empty = False
            if ctype.endswith("; v=1") and "<?xml" not in body:        # comments around the statements
                body = "# a comment\n\n" + body + " # and\n# one more .\n"
            elif ctype.endswith("; v=2") and "<?xml" not in body:      # no statements
                body, empty = "", True
            w.answer = (status, ctype, body.encode("utf-8"))
            gr = mkgraph(ts)
            try:
                if op in ("get", "delete"):
                    got = ("ok", getattr(st, op)(g))
                else:
                    got = ("ok", getattr(st, op)(g, gr))
            except Exception as e:
                got = ("raise", e)
            expect(len(w.log) == 1, f"{nm}: {len(w.log)} requests were sent", got[1])
            r = w.log[0]
            expect(r["method"] == op.upper(), f"{nm}: method", r["method"])
            u, q = split(r["url"]) if "?" in r["url"] else (r["url"], [])
            if g is None:
                expect(r["url"] == ds, f"{nm}: address", r["url"])
            elif style is None or style:
                expect(u == ds and q == [("graph", g)], f"{nm}: address", r["url"])
            else:
                d, last = u.rsplit("/", 1)
                expect(not q and d == ds.rsplit("/", 1)[0] and unquote_plus(last) == g and "#" not in r["url"], f"{nm}: address", r["url"])
            expect(r["verify"] == (True if vf is None else vf), f"{nm}: certificate option", r["verify"])
            if op in ("get", "delete"):
                expect(r["body"] == b"", f"{nm}: has a body", r["body"])
            else:
                ct = r["headers"].get("Content-Type") or ""
                fmt, want = ("xml", "application/vnd.talis.changeset+xml") if op == "patch" else ("nt", "text/plain")
                expect(ct.split(";")[0].strip() == want, f"{nm}: content type", ct)
                back = rdflib.Graph()
                back.parse(data=r["body"], format=fmt)
                expect(set(back) == set(gr), f"{nm}: body does not carry the graph", r["body"])
                expect(set(gr) == set(mkgraph(ts)), f"{nm}: changed its argument")
            good = status in GOOD["post0" if g is None else op]
            expect((got[0] == "ok") == good, f"{nm}: status {status} " + ("raised" if good else "did not raise"), got[1])
            if op == "get" and good and ctype.split(";")[0] in BODIES:
                t = {tuple(map(str, x[:3])) for x in got[1]}
                w_ = {("http://a/s", "http://a/p", "\u00e9")} if not empty else set()
                if not empty and ctype.split(";")[0] != "text/plain":
                    w_.add((g + "#x", "http://a/p", "y"))
                expect(t == w_, f"{nm}: content read as {ctype}", t)


GS = ["http://h/data", "http://h/data?graph=x", "http://h/store/data?graph=http%3A%2F%2Fg%2F1", "http://h/store/data/x", "http://h/store/data?graph=", "http://h/", "http://g/1", "http://g/a b&c=d", "http://g/?x=y+z", "urn:g:\u00e9", "http://g/100%25"]
GET_GS = ["http://g/1", "http://g/2/x"]
T0 = (("http://a/s", "http://a/p", "v"),)


def fixed():
    out = []
    for style in (None, True, False):
        for op in ("get", "delete", "put", "post", "patch"):
            for st in STATUS:
                out.append(((DS[0], style, None), ((op, "http://g/1", T0, st, "text/plain"),)))
            for g in GET_GS if op == "get" else GS:
                out.append(((DS[1], style, False), ((op, g, T0, 200, "text/turtle"),)))
    for n in big_sizes(210):
        ts = tuple(("http://a/%d" % i, "http://a/p", "v" * i) for i in range(n))
        for op in ("put", "post") + (("patch",) if n < 40 else ()):
            out.append(((DS[n % 2], n % 3 == 0, None), ((op, "http://g/" + "g" * n, ts, 200, "text/plain"),)))
    for st in STATUS:
        out.append(((DS[0], None, None), (("post", None, T0, st, "text/plain"),)))
    for ct in BODIES:
        for sfx in ("", "; charset=utf-8", "; v=1", "; v=2"):
            out.append(((DS[0], None, None), (("get", "http://g/1", (), 200, ct + sfx),)))
    return out


def cases(r):
    while True:
        cfg = (r.choice(DS), r.choice([None, True, False]), r.choice([None, None, True, False, "/ca.pem"]))
        ops = []
        for _ in range(r.randrange(1, 4)):
            op = r.choice(["get", "delete", "put", "post", "patch"])
            g = r.choice(GET_GS) if op == "get" else "http://g/" + rand_str(r, 6).translate({i: None for i in list(range(33)) + [127]}).strip()
            if "\x85" in g or any(c.isspace() for c in g):
                g = "http://g/1"
            if op != "get" and r.random() < 0.2:
                g = r.choice([cfg[0], r.choice(DS)]) + r.choice(["", "?graph=", "?graph=" + g, "/" + g, "?", "/"])
            if op == "post" and r.random() < 0.3:
                g = None
            ts = tuple(("http://a/" + r.choice("abc"), "http://a/" + r.choice("pq"), "".join(c for c in rand_str(r, 5) if c.isprintable())) for _ in range(r.randrange(0, 4)))
            ops.append((op, g, ts, r.choice(STATUS), r.choice(list(BODIES)) + r.choice(["", "; charset=utf-8", "; v=1", "; v=2"])))
        yield (cfg, tuple(ops))


def shrink(case):
    cfg, ops = case
    for i in range(len(ops)):
        if len(ops) > 1:
            yield (cfg, ops[:i] + ops[i + 1:])

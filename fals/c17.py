"""C17: sequences of queries and updates on one or two servers against a recording transport"""
import json
from .lib import *
from .httpwire import wire, split, pairs

URLS = ["http://h/sparql", "http://h/sparql?x=1", "https://h:81/a/b", "http://h/"]
TTL = "<http://a/s> <http://a/p> \"\u00e9\" ."
RDFXML = ('<?xml version="1.0" encoding="utf-8"?><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:a="http://a/">'
          '<rdf:Description rdf:about="http://a/s"><a:p>\u00e9</a:p></rdf:Description></rdf:RDF>')
JS = {"head": {"vars": ["\u00e9"]}, "results": {"bindings": []}}
XML = '<sparql xmlns="http://www.w3.org/2005/sparql-results#"><head><variable name="\u00e9"/></head></sparql>'
ANSWERS = {
    "application/rdf+xml": ("graph", RDFXML), "text/turtle": ("graph", TTL),
    "application/sparql-results+json": ("json", json.dumps(JS, ensure_ascii=False)), "application/sparql-results+xml": ("xml", XML),
}
TYPES = list(ANSWERS)
SUFFIX = ["", "; charset=utf-8", ";charset=UTF-8"]
UNKNOWN = ["text/html", "application/json", "text/plain", "application/octet-stream", "application/xml", "image/png; x=application/rdf+xml", "application/sparql-results", "text/n3"]
STATUS = [200, 200, 200, 200, 204, 201, 202, 203, 205, 206, 300, 304, 400, 401, 403, 404, 405, 406, 410, 415, 429, 499, 500, 501, 502, 503, 504]


def execute(case):
    from pymantic.sparql import SPARQLServer
    servers, ops = case
    with wire() as w:
        ss = []
        for url, pq, pd, vf in servers:
            kw = {}
            if pq is not None:
                kw["post_queries"] = pq
            if pd is not None:
                kw["post_directly"] = pd
            if vf is not None:
                kw["verify"] = vf
            ss.append(SPARQLServer(url, **kw))
        for n, (si, kind, text, dg, ng, out, status, ctype) in enumerate(ops):
            one(w, ss[si % len(ss)], servers[si % len(ss)], kind, text, dg, ng, out, status, ctype, f"operation {n + 1}: {kind}")


def graphs_of(x):
    if not x:
        return []
    return [x] if isinstance(x, str) else list(x)


def arg(x):
    return list(x) if isinstance(x, tuple) else x


def one(w, s, cfg, kind, text, dg, ng, out, status, ctype, nm):
    url, pq, pd, vf = cfg
    sel = kind == "query"
    base = ctype.split(";")[0]
    what, body = ANSWERS.get(base, ("?", "zzz"))
    w.answer = (status, ctype, b"" if status == 204 else body.encode("utf-8"))
    w.log.clear()
    kw = {}
    if dg is not None:
        kw["default_graph"] = arg(dg)
    if ng is not None:
        kw["named_graph"] = arg(ng)
    if sel and out is not None:
        kw["output"] = out
    try:
        got = ("ok", (s.query if sel else s.update)(text, **kw))
    except Exception as e:
        got = ("raise", e)
    if not (got[0] == "raise" and not w.log):
        expect(len(w.log) == 1, f"{nm}: {len(w.log)} requests were sent")
    else:
        expect(False, f"{nm}: no request was sent", got[1])
    r = w.log[0]
    names = ("default-graph-uri", "named-graph-uri") if sel else ("using-graph-uri", "using-named-graph-uri")
    gp = [(names[0], g) for g in graphs_of(dg)] + [(names[1], g) for g in graphs_of(ng)]
    key = "query" if sel else "update"
    ep, eq = split(url)
    rp, rq = split(r["url"])
    expect(rp == ep, f"{nm}: sent to another address", r["url"])
    ct = r["headers"].get("Content-Type")
    if isinstance(ct, bytes):
        ct = ct.decode()
    if pd:
        expect(r["method"] == "POST", f"{nm} (direct): method", r["method"])
        expect(rq == sorted(eq + gp), f"{nm} (direct): URL parameters", rq, gp)
        expect(r["body"] == text.encode("utf-8"), f"{nm} (direct): body", r["body"], text)
        expect(ct is not None and ct.replace(" ", "").lower() == f"application/sparql-{key};charset=utf-8", f"{nm} (direct): content type", ct)
    elif pq or not sel:
        expect(r["method"] == "POST", f"{nm} (form): method", r["method"])
        expect(rq == sorted(eq), f"{nm} (form): URL parameters", rq)
        expect(pairs(r["body"].decode("ascii")) == sorted(gp + [(key, text)]), f"{nm} (form): fields", r["body"], gp, text)
        expect(ct is not None and ct.split(";")[0] == "application/x-www-form-urlencoded", f"{nm} (form): content type", ct)
    else:
        expect(r["method"] == "GET", f"{nm} (get): method", r["method"])
        expect(rq == sorted(eq + gp + [(key, text)]), f"{nm} (get): URL parameters", rq, gp, text)
        expect(r["body"] == b"", f"{nm} (get): body", r["body"])
    if sel:
        acc = r["headers"].get("Accept") or ""
        want = {"xml": {"application/sparql-results+xml", "application/rdf+xml"}}.get(out, {"application/sparql-results+json", "text/turtle"})
        expect({x.split(";")[0].strip() for x in acc.split(",")} == want, f"{nm}: Accept header for output {out}", acc)
    expect(r["verify"] == (True if vf is None else vf), f"{nm}: certificate option", r["verify"])
    # the answer
    if status not in (200, 204):
        expect(got[0] == "raise", f"{nm}: status {status} did not raise", got[1])
        return
    if status == 204:
        if not sel:
            expect(got == ("ok", True), f"{nm}: 204 must return True", got)
        return
    if not sel:
        expect(got[0] == "ok", f"{nm}: 200 raised", got[1])
        return
    if what == "?":
        expect(got[0] == "raise", f"{nm}: unknown content type {ctype} did not raise", got[1])
        return
    expect(got[0] == "ok", f"{nm}: a {ctype} answer raised", got[1])
    v = got[1]
    if what == "json":
        expect(v == JS, f"{nm}: JSON result", v)
    elif what == "xml":
        from lxml import etree
        root = v.getroot()
        expect(root.tag.endswith("}sparql") and root.head.variable.get("name") == "\u00e9", f"{nm}: XML result", etree.tostring(root))
    else:
        import rdflib
        ts = {tuple(map(str, t[:3])) for t in v}
        expect(ts == {("http://a/s", "http://a/p", "\u00e9")}, f"{nm}: graph result ({ctype})", ts)
        expect(isinstance(v, rdflib.Graph), f"{nm}: graph result type", type(v))


def fixed():
    out = []
    for pq in (None, False, True):
        for pd in (None, True):
            for kind in ("query", "update"):
                for dg, ng in ((None, None), ("http://g/1", None), (None, "http://g/2"), ("http://g/1", "http://g/2"), (("http://g/1", "http://g/3"), ("http://g/2",)), ("", ())):
                    for o in (None, "xml", "json"):
                        out.append((((URLS[0], pq, pd, None),), ((0, kind, "SELECT \u00e9 & + %20", dg, ng, o, 200, TYPES[2]), (0, kind, "B", None, None, None, 200, TYPES[0]))))
    for n in big_sizes(210):
        many = tuple("http://g/%d" % i for i in range(n))
        for pq, pd in ((None, None), (True, None), (None, True)):
            for kind in ("query", "update"):
                out.append((((URLS[0], pq, pd, None),), ((0, kind, "x" * n * 20, many, many[:3], None, 200, TYPES[2]), (0, kind, "B", many[:2], many, None, 200, TYPES[2]))))
    for st in sorted(set(STATUS)) + list(range(200, 600, 7)):
        for kind in ("query", "update"):
            out.append((((URLS[0], None, None, None),), ((0, kind, "Q", None, None, None, st, TYPES[2]),)))
            out.append((((URLS[0], None, True, False),), ((0, kind, "Q", None, None, None, st, TYPES[2]),)))
    for t in TYPES + UNKNOWN:
        for sfx in SUFFIX:
            for o in (None, "xml"):
                out.append((((URLS[0], None, None, None),), ((0, "query", "Q", None, None, o, 200, t + sfx),)))
    return out


def rgraphs(r):
    k = r.random()
    g = lambda: r.choice(["http://g/1", "http://g/2", "urn:g:\u00e9", "http://g/?a=b&c=d#e", "g h"])
    return None if k < 0.4 else "" if k < 0.45 else () if k < 0.5 else g() if k < 0.8 else tuple(g() for _ in range(r.randrange(1, 4)))


def cases(r):
    while True:
        ss = tuple((r.choice(URLS), r.choice([None, False, True]), r.choice([None, False, True]), r.choice([None, None, False, True, "/ca.pem"]))
                   for _ in range(r.randrange(1, 3)))
        ops = tuple((r.randrange(2), r.choice(["query", "query", "update"]), rand_text(r), rgraphs(r), rgraphs(r), r.choice([None, "xml", "json"]),
                     r.choice(STATUS), r.choice(TYPES + TYPES + UNKNOWN) + r.choice(SUFFIX)) for _ in range(r.randrange(1, 5)))
        yield (ss, ops)


def rand_text(r):
    k = r.random()
    if k < 0.2:
        return "SELECT * WHERE { ?s ?p \"" + rand_str(r, 12) + "\" }"
    if k < 0.25:
        return "# " + "x" * r.choice([100, 1000, 2047, 2048, 4096, 8192, 10000]) + rand_str(r, 3)
    if k < 0.3:
        return r.choice(["", " ", "\n", " Q\n", "a=b&c", "%41", "+"])
    return rand_str(r, 14)


def shrink(case):
    ss, ops = case
    for i in range(len(ops)):
        yield (ss, ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        for j, v in ((2, "Q"), (3, None), (4, None), (5, None), (6, 200)):
            if o[j] != v:
                yield (ss, ops[:i] + (o[:j] + (v,) + o[j + 1:],) + ops[i + 1:])

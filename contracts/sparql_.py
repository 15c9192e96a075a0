"""C17 SPARQL requests, C20 differences and change sets, C21 graph store operations."""
import z3
import rdflib
import lxml.objectify
import pymantic.sparql as SP
from pyvc import terms as T
from pyvc.core import Engine
from pyvc.terms import U, T3, STR, INT, NONE, mk, proj, conj, disj, ex
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.strings import EncV
from pyvc.verify import *
from . import external

METHODS = ("get", "post", "put", "delete", "patch", "head", "options")


class World:
    """recorded effects of one run (heap allocated, so that path exploration restores it)"""

    def __init__(self, E):
        self.sent = ListV(E)
        self.parsed = ListV(E)
        self.status = IntV(z3.Const("status", INT))
        self.ctype = sv(z3.Const("content_type", STR))
        self.content = OpaqueV("content", attrs={"$truth": True}, methods={"decode": self.decode})
        E.world = self

    def decode(self, E, a, k):
        codec = str(a[0] if a else k.get("encoding", "utf-8")).lower().replace("_", "-")
        return OpaqueV(f"content.decode({codec})")

    def response(self, E):
        def hget(E, a, k):
            if E.decide(E.equal(a[0], "content-type")) or E.decide(E.equal(a[0], "Content-Type")):
                return self.ctype
            raise Unsupported("another response header")

        def hget2(E, a, k):
            return hget(E, a, k)
        headers = OpaqueV("response.headers", attrs={"$truth": True}, methods={"__getitem__": hget, "get": hget2})

        def text(E):
            return OpaqueV("response.text")
        return OpaqueV("response", attrs={"status_code": self.status, "headers": headers, "content": self.content,
                                         "text": OpaqueV("response.text"), "ok": BoolV(conj([self.status.e < 400])),
                                         "reason": OpaqueV("reason"), "$truth": self.status.e < 400},
                       methods={"raise_for_status": self.raise_for_status,
                                "json": lambda E, a, k: OpaqueV("json", attrs={"$of": OpaqueV("content.decode(utf-8)"), "$truth": True})})

    def raise_for_status(self, E, a, k):
        import requests
        if E.decide(self.status.e >= 400):
            raise PyRaise(ExcV(requests.HTTPError))
        return None

    def session(self):
        def request(E, a, k):
            a = list(a)
            k = dict(k)
            m = a.pop(0) if a else k.pop("method")
            u = a.pop(0) if a else k.pop("url")
            for n in ("params", "data", "headers"):
                if a:
                    k[n] = a.pop(0)
            m = E.lower(m) if isinstance(m, Val) else m
            return self.record(E, m.lower(), u, k)

        def method(name):
            def f(E, a, k):
                a = list(a)
                k = dict(k)
                u = a.pop(0) if a else k.pop("url")
                if a:
                    k["params" if name in ("get",) else "data"] = a.pop(0)
                return self.record(E, name, u, k)
            return f
        ms = {n: method(n) for n in METHODS}
        ms["request"] = request
        return OpaqueV("session", methods=ms, attrs={"$truth": True})

    def record(self, E, m, u, k):
        for n in k:
            if n not in ("params", "data", "headers", "verify"):
                raise Unsupported(f"request option {n}")

        def copy(v):
            return DictV(E, dict(v.d)) if isinstance(v, DictV) else v
        self.sent.items = self.sent.items + (One(dict(method=m, url=u, **{n: copy(v) for n, v in k.items()})),)
        return self.response(E)


def rdf_graph(E, a, k):
    g = OpaqueV(f"rdfgraph{E.counter}", attrs={"$truth": True})
    E.counter += 1

    def parse(E, a, k):
        names = ["source", "publicID", "format", "location", "file", "data"]
        d = dict(zip(names, a))
        d.update(k)
        E.world.parsed.items = E.world.parsed.items + (One((g, d)),)
        return g
    g.methods["parse"] = parse
    return g


def xml_parse(E, a, k):
    return OpaqueV("objectified", attrs={"$of": a[0], "$truth": True})


def install(E):
    external.install(E)
    for c in ("ConjunctiveGraph", "Dataset", "Graph"):
        if hasattr(rdflib, c):
            E.contracts[getattr(rdflib, c)] = rdf_graph
    E.contracts[lxml.objectify.parse] = xml_parse


def engine():
    def mkE():
        E = Engine()
        install(E)
        return E
    return mkE


def server(E, cls=SP.SPARQLServer):
    w = World(E)
    E.assume(disj([z3.Const("verify_given", T.BOOL), TRUE]))
    kw = DictV(E, {"verify": UV(z3.Const("verify", U))}) if E.choose() else DictV(E, {})
    pq, pd = z3.Const("post_queries", U), z3.Const("post_directly", U)
    o = Obj(E, cls, {"query_url": sv(z3.Const("query_url", STR)), "post_queries": UV(pq), "post_directly": UV(pd),
                     "requests_kwargs": kw, "s": w.session()}, "server")
    return w, o, kw


def text_ok(E, v, q):
    """v carries exactly the UTF-8 encoding of q"""
    if isinstance(v, EncV):
        r = E.equal(v.s, q)
        ok = v.codec in ("utf-8", "utf8")
        return conj([z3.BoolVal(ok), z3.BoolVal(r) if isinstance(r, bool) else r])
    if isinstance(v, (StrV, str)):
        r = E.equal(v, q)
        return z3.BoolVal(r) if isinstance(r, bool) else r
    return FALSE


def eqb(E, a, b):
    r = E.equal(a, b)
    return z3.BoolVal(r) if isinstance(r, bool) else r


def check_dict(E, name, got, want):
    """got: DictV (or None/absent, i.e. empty); want: {key: value or ('text', q)}"""
    if got is None:
        d = {}
    elif isinstance(got, DictV):
        d = got.d
    elif isinstance(got, dict):
        d = got
    else:
        raise Unsupported(f"{name}: {got!r}")
    E.oblige(f"{name}: exactly the keys {sorted(want)}", z3.BoolVal(set(d) == set(want)))
    for k, w in want.items():
        if k in d:
            g = text_ok(E, d[k], w[1]) if isinstance(w, tuple) and w[0] == "text" else eqb(E, d[k], w)
            E.oblige(f"{name}: value of {k}", g)


def header_check(E, name, got, want):
    d = {} if got is None else got.d if isinstance(got, DictV) else got
    low = {k.lower(): v for k, v in d.items()}
    for k, w in want.items():
        E.oblige(f"{name}: header {k} is sent", z3.BoolVal(k in low))
        if k in low:
            v = low[k]
            E.oblige(f"{name}: header {k}", eqb(E, v, w) if not callable(w) else z3.BoolVal(bool(w(v))))


def query_task(kind, output=None):
    sel = kind == "query"

    def thunk(E):
        w, srv, kw = server(E)
        q = sv(z3.Const("sparql", STR))
        dg, ng = UV(z3.Const("dg", U)), UV(z3.Const("ng", U))
        args, kwargs = [q], {}
        if E.choose():
            kwargs["default_graph"] = dg
        else:
            dg = None
        if E.choose():
            kwargs["named_graph"] = ng
        else:
            ng = None
        out = "json"
        if output is not None:
            out = output
            kwargs["output"] = out
        fn = SP.SPARQLServer.query if sel else SP.SPARQLServer.update
        got = outcome(E, lambda: E.call(fn, [srv] + args, kwargs))
        nm = f"SPARQLServer.{kind}"
        E.oblige(f"{nm}: exactly one request", z3.BoolVal(len(w.sent.items) == 1))
        if len(w.sent.items) != 1:
            return
        r = w.sent.items[0].elem
        graphs = {}
        for g, k in ((dg, "default-graph-uri" if sel else "using-graph-uri"), (ng, "named-graph-uri" if sel else "using-named-graph-uri")):
            if g is not None and E.decide(T.truthy(g.e)):
                graphs[k] = g
        key = "query" if sel else "update"
        E.oblige(f"{nm}: to the endpoint", eqb(E, r["url"], srv.attrs["query_url"]))
        direct = E.decide(T.truthy(srv.attrs["post_directly"].e))
        post = True if not sel else E.decide(T.truthy(srv.attrs["post_queries"].e))
        hdr = {}
        if sel:
            full = SP._Select.acceptable_xml_responses if out == "xml" else SP._Select.acceptable_json_responses
            must = {"xml": ("application/sparql-results+xml", "application/rdf+xml"), "json": ("application/sparql-results+json", "text/turtle")}[out]
            hdr["accept"] = lambda v: isinstance(v, str) and sorted(x.strip() for x in v.split(",")) == sorted(must)
        if direct:
            hdr["content-type"] = lambda v: isinstance(v, str) and v.replace(" ", "").lower() == \
                ("application/sparql-query" if sel else "application/sparql-update") + ";charset=utf-8"
            E.oblige(f"{nm} (direct): POST", z3.BoolVal(r["method"] == "post"))
            check_dict(E, f"{nm} (direct): URL parameters", r.get("params"), graphs)
            E.oblige(f"{nm} (direct): body is the text", text_ok(E, r.get("data"), q))
        elif post:
            E.oblige(f"{nm} (form): POST", z3.BoolVal(r["method"] == "post"))
            check_dict(E, f"{nm} (form): URL parameters", r.get("params"), {})
            check_dict(E, f"{nm} (form): form fields", r.get("data"), dict(graphs, **{key: ("text", q)}))
        else:
            E.oblige(f"{nm} (get): GET", z3.BoolVal(r["method"] == "get"))
            check_dict(E, f"{nm} (get): URL parameters", r.get("params"), dict(graphs, **{key: ("text", q)}))
            E.oblige(f"{nm} (get): no body", z3.BoolVal(r.get("data") is None))
        header_check(E, nm, r.get("headers"), hdr)
        E.oblige(f"{nm}: certificate option", z3.BoolVal(("verify" in r) == ("verify" in kw.d)))
        if "verify" in r and "verify" in kw.d:
            E.oblige(f"{nm}: certificate option value", eqb(E, r["verify"], kw.d["verify"]))
        # ---- the answer
        st = w.status.e
        if not E.decide(disj([st == 200, st == 204])):
            E.oblige(f"{nm}: an error status raises", z3.BoolVal(got[0] == "raise"))
            return
        if E.decide(st == 204):
            if not sel:
                E.oblige(f"{nm}: 204 returns True", z3.BoolVal(got[0] == "ok" and got[1] is True))
            return
        if not sel:
            E.oblige(f"{nm}: 200 does not raise", z3.BoolVal(got[0] == "ok"))
            return
        ct = w.ctype.z()

        def is_(p):
            return z3.PrefixOf(z3.StringVal(p), ct)
        for p, fmt in (("application/rdf+xml", "xml"), ("text/turtle", "turtle")):
            if E.decide(is_(p)):
                E.oblige(f"{nm}: a {p} answer is decoded", z3.BoolVal(got[0] == "ok"))
                ps = w.parsed.items
                E.oblige(f"{nm}: {p} answer parsed once", z3.BoolVal(len(ps) == 1))
                if got[0] == "ok" and len(ps) == 1:
                    g, d = ps[0].elem
                    E.oblige(f"{nm}: {p} answer: the parsed graph is returned", z3.BoolVal(got[1] is g))
                    src = d.get("source", d.get("file", d.get("data")))
                    E.oblige(f"{nm}: {p} answer: parsed from the response body",
                             z3.BoolVal(src is w.content or (isinstance(src, external.BytesIOV) and src.content is w.content)))
                    E.oblige(f"{nm}: {p} answer: format", z3.BoolVal(d.get("format") in (fmt, p)))
                return
        if E.decide(is_("application/sparql-results+json")):
            ok = got[0] == "ok" and isinstance(got[1], OpaqueV) and got[1].name == "json"
            E.oblige(f"{nm}: a JSON answer is decoded from the body", z3.BoolVal(bool(ok) and (
                got[1].attrs["$of"] is w.content or getattr(got[1].attrs["$of"], "name", "") == "content.decode(utf-8)")))
            return
        if E.decide(is_("application/sparql-results+xml")):
            ok = got[0] == "ok" and isinstance(got[1], OpaqueV) and got[1].name == "objectified"
            src = got[1].attrs["$of"] if ok else None
            E.oblige(f"{nm}: an XML answer is decoded from the body", z3.BoolVal(bool(ok) and isinstance(src, external.BytesIOV) and src.content is w.content))
            return
        E.oblige(f"{nm}: an unknown content type raises", z3.BoolVal(got[0] == "raise"))
    return Task(f"SPARQLServer.{kind}" + (f" ({output})" if output else ""), thunk, ["SPARQLServer." + kind, "_SelectOrUpdate.execute"] +
                (["_Select.execute", "_Select.__init__"] if sel else ["_Update"]))


def init_task():
    def thunk(E):
        import requests
        ses = OpaqueV("newsession", attrs={"$truth": True})
        E.contracts[requests.Session] = lambda E, a, k: ses
        o = Obj(E, SP.SPARQLServer)
        u, pq, pd, v = sv(z3.Const("u", STR)), UV(z3.Const("pq", U)), UV(z3.Const("pd", U)), UV(z3.Const("vf", U))
        kw = {}
        if E.choose():
            kw["post_queries"] = pq
        if E.choose():
            kw["post_directly"] = pd
        if E.choose():
            kw["verify"] = v
        got = outcome(E, lambda: E.call(SP.SPARQLServer.__init__, [o, u], kw))
        E.oblige("SPARQLServer(): does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        same_value(E, "SPARQLServer(): endpoint", E.getattr_(o, "query_url"), u)
        for n, val in (("post_queries", pq), ("post_directly", pd)):
            g = E.truth(E.getattr_(o, n))
            g = z3.BoolVal(g) if isinstance(g, bool) else g
            E.oblige(f"SPARQLServer(): {n}", g == (T.truthy(val.e) if n in kw else FALSE))
        d = o.attrs["requests_kwargs"]
        d = d.d if isinstance(d, DictV) else d
        given = "verify" in kw and E.decide(v.e != NONE)
        E.oblige("SPARQLServer(): certificate option kept exactly when given", z3.BoolVal(set(d) == ({"verify"} if given else set())))
        if given and "verify" in d:
            same_value(E, "SPARQLServer(): certificate option", d["verify"], v)
        E.oblige("SPARQLServer(): own session", z3.BoolVal(o.attrs.get("s") is ses))
    return Task("SPARQLServer.__init__", thunk, ["SPARQLServer.__init__"])


def c17_tasks():
    return [init_task(), query_task("query"), query_task("query", "xml"), query_task("query", "json"), query_task("update")]


# ---- C21 ------------------------------------------------------------------------------------------

def url_task():
    def thunk(E):
        _, o = store(E)
        g = sv(z3.Const("graph_uri", STR))
        got = outcome(E, lambda: E.call(SP.UpdateableGraphStore.request_url, [o, g], {}))
        E.oblige("request_url: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            E.oblige("request_url: names the graph", eqb(E, got[1], graph_url(E, o, g)))
    return Task("UpdateableGraphStore.request_url", thunk, ["UpdateableGraphStore.request_url"])


def graph_url(E, o, g):
    ds = o.attrs["dataset_url"]
    if E.decide(T.truthy(o.attrs["param_style"].e)):
        return sv(z3.Concat(ds.z(), z3.StringVal("?graph="), external.quote_plus_f(g.z())))
    return sv(external.urljoin_f(ds.z(), external.quote_plus_f(g.z())))


def store(E, cls=SP.UpdateableGraphStore):
    w, o, kw = server(E, cls)
    o.attrs["dataset_url"] = sv(z3.Const("dataset_url", STR))
    o.attrs["param_style"] = UV(z3.Const("param_style", U))
    return w, o


def op_task(op, cls=SP.UpdateableGraphStore):
    def thunk(E):
        w, o = store(E, cls)
        kw = o.attrs["requests_kwargs"]
        g = sv(z3.Const("graph_uri", STR))
        if op == "post" and E.choose():
            g = None
        ser = {}

        def serialize(E, a, k):
            fmt = k.get("format", a[1] if len(a) > 1 else None)
            if a:
                raise Unsupported("serialize to a destination")
            if k.get("encoding") not in (None, "utf-8", "UTF-8"):
                raise Unsupported("serialization encoding")
            return OpaqueV(f"serialized as {fmt}", attrs={"$truth": True}, methods={"encode": lambda E, a, k: OpaqueV(f"serialized as {fmt}")})
        graph = OpaqueV("thegraph", attrs={"$truth": True}, methods={"serialize": serialize})
        args = [o, g] + ([graph] if op in ("put", "post", "patch") else [])
        fn = cls.__dict__[op]
        got = outcome(E, lambda: E.call(fn, args, {}))
        nm = f"{cls.__name__}.{op}" + (" (no graph name)" if g is None else "")
        E.oblige(f"{nm}: exactly one request", z3.BoolVal(len(w.sent.items) == 1))
        if len(w.sent.items) != 1:
            return
        r = w.sent.items[0].elem
        E.oblige(f"{nm}: request method", z3.BoolVal(r["method"] == op))
        E.oblige(f"{nm}: addresses exactly the named graph", eqb(E, r["url"], o.attrs["dataset_url"] if g is None else graph_url(E, o, g)))
        check_dict(E, f"{nm}: no further parameters", r.get("params"), {})
        E.oblige(f"{nm}: certificate option", z3.BoolVal(("verify" in r) == ("verify" in kw.d)))
        fmt, ct = ("xml", "application/vnd.talis.changeset+xml") if op == "patch" else ("nt", "text/plain")
        if op in ("put", "post", "patch"):
            E.oblige(f"{nm}: the body is the serialized graph", z3.BoolVal(isinstance(r.get("data"), OpaqueV) and r["data"].name == f"serialized as {fmt}"))
            header_check(E, nm, r.get("headers"), {"content-type": lambda v: isinstance(v, str) and v.split(";")[0].strip() == ct})
        else:
            E.oblige(f"{nm}: no body", z3.BoolVal(r.get("data") is None))
        st = w.status.e
        good = {"get": (200,), "delete": (200, 202), "put": (200, 201, 204), "post": (200, 201, 204) if g is not None else (201,),
                "patch": (200, 201, 204)}[op]
        ok = E.decide(disj([st == c for c in good]))
        E.oblige(f"{nm}: raises exactly on an unexpected status", z3.BoolVal((got[0] == "ok") == ok))
        if op == "get" and ok and got[0] == "ok":
            ctv = w.ctype.z()
            for p, f in (("text/plain", "nt"), ("application/rdf+xml", "xml"), ("text/turtle", "turtle"), ("text/rdf+n3", "n3")):
                if E.decide(z3.PrefixOf(z3.StringVal(p), ctv)):
                    ps = w.parsed.items
                    E.oblige(f"{nm}: {p} body parsed once", z3.BoolVal(len(ps) == 1))
                    if len(ps) == 1:
                        gr, d = ps[0].elem
                        E.oblige(f"{nm}: {p}: the parsed graph is returned", z3.BoolVal(got[1] is gr))
                        src = d.get("source", d.get("file", d.get("data")))
                        E.oblige(f"{nm}: {p}: parsed from the body", z3.BoolVal(
                            src is w.content or (isinstance(src, external.BytesIOV) and src.content is w.content)))
                        E.oblige(f"{nm}: {p}: format", z3.BoolVal(d.get("format") in (f, p)))
                        E.oblige(f"{nm}: {p}: base is the graph's name", eqb(E, d.get("publicID"), g) if d.get("publicID") is not None else FALSE)
                    return
            E.oblige(f"{nm}: nothing parsed for an unknown type", z3.BoolVal(not w.parsed.items))
    return Task(f"{cls.__name__}.{op}", thunk, [f"{cls.__name__}.{op}", "UpdateableGraphStore.request_url"])


def store_init_task():
    def thunk(E):
        import requests
        E.contracts[requests.Session] = lambda E, a, k: OpaqueV("newsession", attrs={"$truth": True})
        o = Obj(E, SP.UpdateableGraphStore)
        u, d, p = sv(z3.Const("u", STR)), sv(z3.Const("d", STR)), UV(z3.Const("ps", U))
        kw = {"param_style": p} if E.choose() else {}
        got = outcome(E, lambda: E.call(SP.UpdateableGraphStore.__init__, [o, u, d], dict(kw)))
        E.oblige("UpdateableGraphStore(): does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            same_value(E, "UpdateableGraphStore(): query endpoint", E.getattr_(o, "query_url"), u)
            same_value(E, "UpdateableGraphStore(): dataset endpoint", E.getattr_(o, "dataset_url"), d)
            t = E.truth(E.getattr_(o, "param_style"))
            E.oblige("UpdateableGraphStore(): addressing style", (z3.BoolVal(t) if isinstance(t, bool) else t) == (T.truthy(p.e) if kw else TRUE))
    return Task("UpdateableGraphStore.__init__", thunk, ["UpdateableGraphStore.__init__"])


def c21_tasks():
    return [store_init_task(), url_task()] + [op_task(o) for o in ("get", "delete", "put", "post")] + [op_task("patch", SP.PatchableGraphStore)]


# ---- C20 ------------------------------------------------------------------------------------------

def rgraph(E, name):
    """an rdflib graph / any collection of statements: a set"""
    V = z3.Function(f"St_{name}", T3, z3.BoolSort())
    s = SetV(E, T3, lambda x: V(x), name=name, cls=frozenset)
    return s, V


def tup3(E, v):
    return E.term(v, T3)


def diff_task(with_ex):
    def thunk(E):
        a, A = rgraph(E, "a")
        b, B = rgraph(E, "b")
        E.contracts[rdflib.URIRef] = lambda E, args, k: args[0]
        args = [a, b]
        if with_ex:
            X = z3.Function("excluded", U, z3.BoolSort())
            x = z3.FreshConst(U, "x")
            ex_ = SeqV([Seg([x], X(x), UV(x))])
            args.append(ex_)
        else:
            X = lambda p: FALSE
        got = outcome(E, lambda: E.call(SP.differences, args, {}))
        E.oblige("differences: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        r = got[1]
        its = E.segments(r)
        ok = isinstance(r, (TupV, ListV)) and len(its) == 2 and all(isinstance(i, One) for i in its)
        E.oblige("differences: a pair", z3.BoolVal(bool(ok)))
        if not ok:
            return
        rem, add = its[0].elem, its[1].elem
        P_ = lambda t: proj(T3, 1, t)
        compare_collection(E, "differences: removals", rem, lambda t: conj([A(t), z3.Not(B(t)), z3.Not(X(P_(t)))]), T3)
        compare_collection(E, "differences: additions", add, lambda t: conj([B(t), z3.Not(A(t)), z3.Not(X(P_(t)))]), T3)
        y = E.fresh_const("y", T3)
        E.oblige("differences: the graphs are unchanged", conj([a.mem(y) == A(y), b.mem(y) == B(y)]))
    return Task(f"differences{' with exclusions' if with_ex else ''}", thunk, ["differences"])


RDFNS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
CS = "http://purl.org/vocab/changeset/schema#"


def out_graph(E):
    """rdflib.Graph(): a set of triples; add() inserts a 3-tuple"""
    s = SetV(E, T3, None, name="changeset graph")
    s.sort = T3

    def add(E, a, k):
        s.add(a[0])
        return g
    nm = OpaqueV("nsmanager", methods={"bind": lambda E, a, k: None})
    g = OpaqueV(f"outgraph", attrs={"$truth": True, "namespace_manager": nm, "$set": s},
                methods={"add": add, "bind": lambda E, a, k: None,
                         "__iter__": lambda E, a, k: SeqV(s.segs(), (s,))})
    return g, s


def rdf_node(E, origin):
    """rdflib.BNode(): a new node, one per evaluation (per loop iteration: a function of the loop variables)"""
    if origin is not None:
        return UV(origin(E))
    return UV(E.fresh("bn", U))


def reify_spec(sn, t):
    """the four triples describing statement t at node sn"""
    u = lambda s: T.ofStr(z3.StringVal(s))
    return [mk(T3, sn, u(RDFNS + "type"), u(RDFNS + "Statement")), mk(T3, sn, u(RDFNS + "subject"), proj(T3, 0, t)),
            mk(T3, sn, u(RDFNS + "predicate"), proj(T3, 1, t)), mk(T3, sn, u(RDFNS + "object"), proj(T3, 2, t))]


def reify_task():
    def thunk(E):
        E.contracts[rdflib.BNode] = lambda E, a, k: rdf_node(E, None)
        g, s = out_graph(E)
        old = z3.Function("Old", T3, z3.BoolSort())
        s.base = lambda x: old(x)
        t = z3.Const("t", T3)
        got = outcome(E, lambda: E.call(SP.reify, [g, TupV(tuple, [UV(proj(T3, i, t)) for i in range(3)], t)], {}))
        E.oblige("reify: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        E.oblige("reify: returns the statement node", z3.BoolVal(isinstance(got[1], UV) and "bn" in str(got[1].e)))
        if isinstance(got[1], UV):
            x = E.fresh_const("x", T3)
            E.oblige("reify: adds exactly the description of the statement",
                     s.mem(x) == disj([old(x)] + [x == y for y in reify_spec(got[1].e, t)]))
    return Task("reify", thunk, ["reify"])


def changeset_task():
    def thunk(E):
        a, A = rgraph(E, "a")
        b, B = rgraph(E, "b")
        kinds = []
        org = {}

        def bnode(E, args, k):
            # identity of a new node: the call site instance plus the loop variables
            e = E.fresh("bn", U)
            kinds.append(e)
            return UV(e)
        E.contracts[rdflib.BNode] = bnode
        E.contracts[rdflib.URIRef] = lambda E, args, k: args[0]
        g, s = out_graph(E)
        E.contracts[rdflib.Graph] = lambda E, a, k: g
        made = z3.Function("reified", U, T3, z3.BoolSort())
        E.contracts[SP.reify] = lambda E, args, k: reify_contract(E, args[0], args[1])
        when = UV(z3.Const("now", U))
        import datetime
        E.contracts[datetime.datetime.now] = lambda E, a, k: OpaqueV("now", methods={"isoformat": lambda E, a, k: when})
        E.contracts[rdflib.Literal] = lambda E, args, k: args[0]
        E.contracts[rdflib.Namespace] = lambda E, args, k: rdflib.Namespace(args[0])
        uri = UV(z3.Const("uri", U))
        got = outcome(E, lambda: E.call(SP.changeset, [a, b, uri], {}))
        E.oblige("changeset: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        E.oblige("changeset: returns the graph", z3.BoolVal(got[1] is g))
        u = lambda x: T.ofStr(z3.StringVal(x))
        heads = [k for k in kinds if z3.is_const(k)]
        E.oblige("changeset: one change set node", z3.BoolVal(len(heads) == 1))
        if len(heads) != 1:
            return
        c = heads[0]
        x = E.fresh_const("x", T3)
        y = z3.FreshConst(T3, "st")
        parts = [x == mk(T3, c, u(RDFNS + "type"), u(CS + "ChangeSet")), x == mk(T3, c, u(CS + "createdDate"), when.e),
                 x == mk(T3, c, u(CS + "subjectOfChange"), uri.e)]
        for inn, notin, link in ((A, B, "removal"), (B, A, "addition")):
            sn = E.stmt_node(link, y)
            parts.append(ex([y], conj([inn(y), z3.Not(notin(y)), disj([x == t for t in reify_spec(sn, y)] + [x == mk(T3, c, u(CS + link), sn)])])))
        E.oblige("changeset: describes exactly the removals and additions", s.mem(x) == disj(parts))
        z = E.fresh_const("z", T3)
        E.oblige("changeset: the graphs are unchanged", conj([a.mem(z) == A(z), b.mem(z) == B(z)]))

    def reify_contract(E, g, st):
        t = E.term(st, T3)
        link = "removal" if not getattr(E, "reify_phase", None) else E.reify_phase
        f = z3.Function("stmtnode", T3, U)
        # a new node per statement: origin function of the statement (a statement is on one side only)
        sn = f(t)
        s = g.attrs["$set"]
        for y in reify_spec(sn, t):
            s.add(TupV(tuple, [UV(proj(T3, i, y)) for i in range(3)], y))
        return UV(sn)
    t = Task("changeset", thunk, ["changeset"])
    return t


def c20_engine():
    def mkE():
        E = engine()()
        f = z3.Function("stmtnode", T3, U)
        E.stmt_node = lambda link, y: f(y)
        return E
    return mkE


def c20_tasks():
    return [diff_task(False), diff_task(True), reify_task(), changeset_task()]

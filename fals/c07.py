"""C07: CURIEs.  Oracle: the CURIE rules written out over plain strings."""
import itertools
from .lib import *
from contracts.schemes import SCHEMES

SC = set(SCHEMES)


def resolve_oracle(curie, ns):
    """expected string, ValueError, or ... (not specified)"""
    br = len(curie) >= 2 and curie[0] == "[" and curie[-1] == "]"
    inner = curie[1:-1] if br else curie
    i = inner.find(":")
    if i < 0:
        if not br and inner in SC:
            return ...
        if "" in ns:
            return ns[""] + inner
        return ... if inner in ns else ValueError
    p, ref = inner[:i], inner[i + 1:]
    if not br and p in SC:
        return inner
    if p in ns:
        return ns[p] + ref
    return ValueError


def do(f):
    try:
        return f()
    except ValueError:
        return ValueError


def execute(case):
    from pymantic import primitives as P
    ns, strings, iris = dict(case[0]), case[1], case[2]
    import pymantic.uri_schemes as us
    live = set(us.schemes)
    expect(SC <= live, "registered URI schemes are recognised", sorted(SC - live))
    ident = case[3] if len(case) > 3 else "str"
    if ident == "node":
        ns = {k: P.NamedNode(v) for k, v in ns.items()}
    elif ident == "prefix":
        ns = {k: P.Prefix(v) for k, v in ns.items()}
    pm = P.PrefixMap(ns)
    keep = list(ns.items())
    for c in strings:
        if not c:
            continue
        want = resolve_oracle(c, ns)
        for name, got in (("parse_curie", do(lambda: P.parse_curie(c, ns))), ("PrefixMap.resolve", do(lambda: pm.resolve(c)))):
            if want is ...:
                continue
            if want is ValueError:
                expect(got is ValueError, f"{name}({c!r}): an unbound prefix raises ValueError", got, ns)
            else:
                expect(got is not ValueError and got == want and isinstance(got, P.NamedNode), f"{name}({c!r}) should be {want!r}", got, ns)
        if ":" in c and want is not ...:
            got = do(lambda: P.Profile(P.PrefixMap(ns)).resolve(c))
            w = want if want is not ValueError or c.strip("[").split(":")[0] not in ("rdf", "xsd") else ...
            expect(w is ... or (got is ValueError if w is ValueError else got == w), f"Profile.resolve({c!r}) should be {want!r}", got)
    cs = [c for c in strings if c]
    wants = [resolve_oracle(c, ns) for c in cs]
    good = [(c, w) for c, w in zip(cs, wants) if w is not ValueError and w is not ...]
    got = list(P.parse_curies([c for c, w in good], ns))
    expect(got == [w for c, w in good], "parse_curies resolves each CURIE in order", got)
    for iri in iris:
        best = max((len(n) for n in ns.values() if iri.startswith(n)), default=None)
        for explicit, sep in ((False, ":"), (True, ":"), (False, "-"), (True, "::")):
            got = P.to_curie(P.NamedNode(iri), ns, sep, explicit)
            if best is None:
                expect(got == iri, f"to_curie({iri!r}): unchanged without a matching namespace", got, ns)
                continue
            ok = [("[%s]" if explicit else "%s") % (p + sep + iri[len(n):]) for p, n in ns.items() if len(n) == best and iri.startswith(n)]
            expect(got in ok, f"to_curie({iri!r}, {sep!r}, {explicit}) should be one of {ok}", got, ns)
            if sep == ":":
                ps = [p for p, n in ns.items() if len(n) == best and iri.startswith(n)]
                if all(not (set(p) & set(":[]")) and p not in live for p in ps):
                    back = do(lambda: P.parse_curie(got, ns))
                    expect(back == iri, f"resolving the shrunk form {got!r} gives {iri!r}", back, ns)
        got = pm.shrink(P.NamedNode(iri))
        expect(got == P.to_curie(iri, ns), f"PrefixMap.shrink({iri!r})", got)
        got = P.to_curie(iri, {})
        expect(got == iri, "to_curie without namespaces", got)
    expect(list(ns.items()) == keep and list(pm.items()) == keep, "the maps are unchanged", ns)


PRE = ["", "a", "ab", "rdf", "xsd", "x-y", "é", "A", "http2", "[a", "a]"]
NSS = ["http://a/", "http://a/b", "http://a/b#", "http://a/b#http://a/b#", "urn:x:", "", "h", "http://é/", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"]
REF = ["", "x", "http://a/", "x:y", ":", "b#", "é", "[x]", "a]", "x y", "//host"]


def mkcase(ns, refs, ident="str"):
    ns = tuple(ns)
    ss = []
    for p in [p for p, _ in ns] + ["nope", "", "http", "mailto", "urn"]:
        for r in refs:
            ss += [f"{p}:{r}", f"[{p}:{r}]"]
    for r in refs:
        ss += [r, f"[{r}]", "[" + r, r + "]"]
    iris = []
    for _, n in ns:
        for r in refs:
            iris.append(n + r)
            iris.append(n + r + n)
    iris += ["http://other/x", "http://a", "urn:x"]
    return (ns, tuple(ss), tuple(iris), ident)


def fixed():
    for n1 in NSS:
        for n2 in NSS:
            for p1, p2 in (("a", "b"), ("", "ab"), ("x", ""), ("a", "ab")):
                yield mkcase([(p1, n1), (p2, n2)], REF[:8], "str")
    for ident in ("node", "prefix"):
        yield mkcase([(p, n) for p, n in zip(PRE, NSS)], REF, ident)
    yield mkcase([], REF)
    for s in SCHEMES:
        yield ((("a", "http://a/"), (s, "http://scheme/")), (s + ":x", s + ":", "[" + s + ":x]", s + "x:y", s[:-1] + ":y"), ("http://scheme/q",), "str")
    for s in mined_strings():
        if s:
            yield mkcase([("p", s), (s, "http://m/")], ["x", s], "str")


def cases(r):
    while True:
        nss = NSS + [rand_iri(r), rand_str(r, 4)]
        k = r.randrange(0, 6)
        ns = dict((r.choice(PRE + [rand_str(r, 3)]), r.choice(nss) + r.choice(["", "", rand_str(r, 3)])) for _ in range(k))
        yield mkcase(list(ns.items()), r.sample(REF, 3) + [rand_str(r, 5), rand_str(r, 3)], r.choice(["str", "node", "prefix"]))


def shrink(case):
    ns, ss, iris, ident = case
    if len(ss) + len(iris) > 1:
        for s in ss:
            yield (ns, (s,), (), ident)
        for i in iris:
            yield (ns, (), (i,), ident)
    for i in range(len(ns)):
        yield (ns[:i] + ns[i + 1:], ss, iris, ident)

"""C10: terms of Turtle documents."""
import z3
import pymantic.primitives as P
from lark import Transformer, Tree
from pymantic import util
from pymantic.parsers.lark import turtle
from pyvc import terms as T, regex
from pyvc.core import Engine
from pyvc.strings import align
from pyvc.terms import U, STR, conj, disj
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.verify import *
from . import external, parsing, ttlgrammar
from .bnodes import terminal, sink, start
from .curie import Maps, map_is, XSD, RDF
from .parsing import Tok
from .text import fn, goal

S = z3.StringVal
TT = turtle.TurtleTransformer
ESC = {"t": 9, "b": 8, "n": 10, "r": 13, "f": 12, '"': 34, "'": 39, "\\": 92}
ILLEGAL = tuple(range(0x21)) + tuple(map(ord, '<>"{}|^`\\'))
LOCAL_ESC = "_~.-!$&'()*+,;=/?#@%"
M = 0x110000
ECH, U4, U8, PCT, LESC = 1 * M, 2 * M, 4 * M, 8 * M, 16 * M


# ---- token texts: sequences of units, each written in one way and meaning one character --------------------------

def code(n):
    """code points a \\u escape can name"""
    return conj([n >= 0, n <= 0x10FFFF, z3.Not(conj([n >= 0xD800, n <= 0xDFFF]))])


def text(plain, uchar=True, echar=False, local=False):
    """(units, raw text, meaning): an arbitrary text of a token body"""
    kinds = []

    def add(g, raw, val):
        kinds.append((g, raw, val))
    add(lambda c: conj([c >= 0, c <= 0x10FFFF, plain(c)]), lambda c: [Ch(c)], lambda c: [Ch(c)])
    if echar:
        for i, (k, v) in enumerate(ESC.items()):
            add(lambda c, i=i: c == ECH + i, lambda c, k=k: ["\\" + k], lambda c, v=v: [chr(v)])
    if uchar:
        add(lambda c: conj([c >= U4, c <= U4 + 0xFFFF, code(c - U4)]), lambda c: ["\\u", Hex(c - U4, 4, None)], lambda c: [Ch(c - U4)])
        add(lambda c: conj([c >= U8, c <= U8 + 0x10FFFF, code(c - U8)]), lambda c: ["\\U", Hex(c - U8, 8, None)], lambda c: [Ch(c - U8)])
    if local:
        isx = lambda d: disj([conj([d >= a, d <= b]) for a, b in ((48, 57), (65, 70), (97, 102))])
        hi, lo = lambda c: (c - PCT) / 128, lambda c: (c - PCT) % 128
        add(lambda c: conj([c >= PCT, c < PCT + 128 * 128, isx(hi(c)), isx(lo(c))]), lambda c: ["%", Ch(hi(c)), Ch(lo(c))],
            lambda c: ["%", Ch(hi(c)), Ch(lo(c))])
        for i, k in enumerate(LOCAL_ESC):
            add(lambda c, i=i: c == LESC + i, lambda c, k=k: ["\\" + k], lambda c, k=k: [k])
    u = Units("text", lambda c: disj([g(c) for g, _, _ in kinds]))
    v = z3.Int("unit")
    return u, FM(u, v, [(g(v), r(v)) for g, r, _ in kinds]), FM(u, v, [(g(v), m(v)) for g, _, m in kinds])


def not_in(chars):
    return lambda c: conj([c != o for o in chars])


def iri_text():
    return text(not_in(ILLEGAL))


def legal(u, meaning):
    """every character of the decoded IRI may stand in an IRI"""
    return regex.every_char(None, [meaning], regex.cneg(regex.norm(tuple((o, o) for o in ILLEGAL))))


def string_text(q):
    bad = [92] + ([ord(q), 10, 13] if len(q) == 1 else [])
    return text(not_in(bad), echar=True)


def local_text():
    """the body of a local name (without regard to what may come first or last)"""
    pn = regex.lang(r"[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF"
                    r"\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF_:.\-0-9\u00B7\u0300-\u036F\u203F-\u2040]")
    return text(lambda c: regex.cond_in(pn[1], c), uchar=False, local=True)


def join(base, ref):
    """resolution of a reference, with its empty fragment"""
    j = external.urljoin_f(base, ref)
    return z3.If(conj([z3.SuffixOf(S("#"), ref), z3.Not(z3.SuffixOf(S("#"), j))]), z3.Concat(j, S("#")), j)


def engine():
    def mkE():
        E = Engine()
        external.install(E)
        parsing.install(E)
        return E
    return mkE


def transformer(E):
    """a transformer in the middle of a document"""
    E.bn_ground = True
    E.thread = 0
    m = Maps(E, "prefixes", P.PrefixMap)
    base = z3.Const("base_iri", STR)
    tr = E.call(TT, [], {})
    for n in ("base_iri", "prefixes"):
        if n not in tr.attrs:
            raise Unsupported(f"transformer without {n}")
    tr.attrs["base_iri"] = sv(base)
    tr.attrs["prefixes"] = m.v
    prof = tr.attrs.get("profile")
    if isinstance(prof, Obj):
        prof.attrs["prefixes"] = m.v
    return tr, m, base


def call(E, tr, rule, *children):
    return outcome(E, lambda: E.call(E.getattr_(tr, rule), [ListV(E, [One(c) for c in children])], {}))


def unchanged(E, nm, tr, m, base):
    b = tr.attrs.get("base_iri")
    E.oblige(f"{nm}: the base stays", E.zstr(b) == base if b is not None else FALSE)
    map_is(E, f"{nm}: the prefixes stay", tr.attrs["prefixes"], m.has, m.get, "prefix")


def named(E, nm, got, want):
    ok = got[0] == "ok" and isinstance(got[1], (StrV, str)) and (got[1].cls if isinstance(got[1], StrV) else type(got[1])) is P.NamedNode
    E.oblige(f"{nm}: a named node", z3.BoolVal(ok))
    if ok:
        E.oblige(nm, E.zstr(got[1]) == want)


def rejected(E, got):
    return got[0] == "raise"


# ---- IRIs ----------------------------------------------------------------------------------------------------

def t_iriref(E):
    nm = "IRI reference"
    tr, m, base = transformer(E)
    u, raw, val = iri_text()
    ok = legal(u, val)
    got = call(E, tr, "iri", Tok("IRIREF", ["<", raw, ">"]))
    if got[0] == "raise":
        E.oblige(f"{nm}: rejected only for an illegal character", z3.Not(ok))
    else:
        E.oblige(f"{nm}: accepted only without illegal characters", ok)
        named(E, f"{nm}: decoded once and resolved against the base", got, join(base, StrV([val]).z()))
    unchanged(E, nm, tr, m, base)


def t_iri_pass(E):
    nm = "prefixed name in place of an IRI"
    tr, m, base = transformer(E)
    x = E.fresh_const("iri", STR)
    E.assume(z3.Not(z3.PrefixOf(S("<"), x)))    # ensured by prefixed_name and prefix_id
    got = call(E, tr, "iri", sv(x, P.NamedNode))
    named(E, f"{nm}: stays as it is", got, x)


def t_pname(local):
    def thunk(E):
        nm = "prefixed name" + ("" if local else " without local part")
        tr, m, base = transformer(E)
        ns = E.fresh_const("ns", STR)
        E.assume(z3.Not(z3.Contains(ns, S(":"))))
        E.assume(z3.Not(z3.Contains(ns, S("\\"))))
        if local:
            u, raw, val = local_text()
            tok, want = Tok("PNAME_LN", [Zs(ns), ":", raw]), z3.Concat(m.get(ns), StrV([val]).z())
        else:
            tok, want = Tok("PNAME_NS", [Zs(ns), ":"]), m.get(ns)
        got = call(E, tr, "prefixed_name", tok)
        if got[0] == "raise":
            E.oblige(f"{nm}: rejected only if the prefix is not declared", z3.Not(m.has(ns)))
        else:
            E.oblige(f"{nm}: accepted only if the prefix is declared", m.has(ns))
            named(E, f"{nm}: the namespace and the local name, decoded once", got, want)
        unchanged(E, nm, tr, m, base)
    return thunk


def t_prefix(sparql):
    def thunk(E):
        nm = "PREFIX" if sparql else "@prefix"
        tr, m, base = transformer(E)
        u, raw, val = iri_text()
        ns = E.fresh_const("ns", STR)
        E.assume(z3.Not(z3.Contains(ns, S(":"))))
        ok = legal(u, val)
        toks = [Tok("PNAME_NS", [Zs(ns), ":"]), Tok("IRIREF", ["<", raw, ">"])]
        if sparql:
            kw = E.fresh_const("keyword", STR)
            E.assume(z3.Not(z3.PrefixOf(S("@"), kw)))
            toks.insert(0, Tok("__ANON_0", [Zs(kw)]))
        got = call(E, tr, "sparql_prefix" if sparql else "prefix_id", *toks)
        if got[0] == "raise":
            E.oblige(f"{nm}: rejected only for an illegal character", z3.Not(ok))
            return
        E.oblige(f"{nm}: accepted only without illegal characters", ok)
        iri = join(base, StrV([val]).z())
        map_is(E, f"{nm}: declares the prefix", tr.attrs["prefixes"], lambda k: disj([k == ns, m.has(k)]),
               lambda k: z3.If(k == ns, iri, m.get(k)), "prefix")
        b = tr.attrs.get("base_iri")
        E.oblige(f"{nm}: the base stays", E.zstr(b) == base)
        no_triples(E, nm, got)
    return thunk


def no_triples(E, nm, got):
    try:
        n = [s for s in E.segments(got[1])]
    except PyRaise:
        n = [1]
    E.oblige(f"{nm}: gives no triples", z3.BoolVal(n == []))


def t_base(sparql):
    def thunk(E):
        nm = "BASE" if sparql else "@base"
        tr, m, base = transformer(E)
        u, raw, val = iri_text()
        ok = legal(u, val)
        if sparql:
            kw = E.fresh_const("keyword", STR)
            E.assume(disj([kw == S("".join(x)) for x in cases("base")]))
            kt = Tok("__ANON_0", [Zs(kw)])
        else:
            kt = Tok("BASE_DIRECTIVE", ["@base"])
        got = call(E, tr, "sparql_base" if sparql else "base", kt, Tok("IRIREF", ["<", raw, ">"]))
        if got[0] == "raise":
            E.oblige(f"{nm}: rejected only for an illegal character", z3.Not(ok))
            return
        E.oblige(f"{nm}: accepted only without illegal characters", ok)
        b = tr.attrs.get("base_iri")
        E.oblige(f"{nm}: becomes the base, resolved against the previous one", E.zstr(b) == join(base, StrV([val]).z()))
        map_is(E, f"{nm}: the prefixes stay", tr.attrs["prefixes"], m.has, m.get, "prefix")
        no_triples(E, nm, got)
    return thunk


def cases(w):
    out = [[]]
    for c in w:
        out = [o + [x] for o in out for x in (c, c.upper())]
    return out


def t_urljoin(E):
    b, r = z3.Const("base", STR), z3.Const("ref", STR)
    got = outcome(E, lambda: E.call(fn(util, "smart_urljoin"), [sv(b), sv(r)], {}))
    E.oblige("smart_urljoin: does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] == "ok":
        E.oblige("smart_urljoin: resolution that keeps an empty fragment", E.zstr(got[1]) == join(b, r))


# ---- literals ------------------------------------------------------------------------------------------------

def literal(E, nm, got, value, language, datatype):
    v = got[1] if got[0] == "ok" else None
    ok = isinstance(v, TupV) and v.cls is P.Literal and len(v.items) == 3
    E.oblige(f"{nm}: a literal", z3.BoolVal(ok))
    if not ok:
        return
    val, lang, dt = v.items
    eq = E.equal(val, value)
    E.oblige(f"{nm}: its value", goal(eq))
    if language is None:
        E.oblige(f"{nm}: no language", z3.BoolVal(lang is None) if not isinstance(lang, UV) else lang.e == T.NONE)
    else:
        E.oblige(f"{nm}: its language", goal(E.equal(lang, sv(language))) if lang is not None else FALSE)
    if datatype is None:
        E.oblige(f"{nm}: no datatype", z3.BoolVal(dt is None) if not isinstance(dt, UV) else dt.e == T.NONE)
    else:
        E.oblige(f"{nm}: its datatype", goal(E.equal(dt, datatype)) if dt is not None else FALSE)
        c = dt.cls if isinstance(dt, StrV) else type(dt)
        E.oblige(f"{nm}: its datatype is a named node", z3.BoolVal(isinstance(c, type) and issubclass(c, P.NamedNode)))


def t_string(kind, q):
    def thunk(E):
        nm = kind
        tr, m, base = transformer(E)
        u, raw, val = string_text(q)
        got = call(E, tr, "string", Tok(kind, [q, raw, q]))
        ok = got[0] == "ok" and isinstance(got[1], (str, StrV))
        E.oblige(f"{nm}: a string", z3.BoolVal(ok))
        if ok:
            E.oblige(f"{nm}: quotes stripped, escapes decoded once", goal(E.equal(got[1], StrV([val]))))
    return thunk


def t_number(kind, dt):
    def thunk(E):
        tr, m, base = transformer(E)
        s = E.fresh_const("number", STR)
        got = call(E, tr, "numeric_literal", Tok(kind, [Zs(s)]))
        literal(E, kind, got, sv(s), None, XSD + dt)
    return thunk


def t_boolean(E):
    tr, m, base = transformer(E)
    s = E.fresh_const("boolean", STR)
    E.assume(disj([s == S("true"), s == S("false")]))
    got = call(E, tr, "boolean_literal", Tok("__ANON_5", [Zs(s)]))
    literal(E, "boolean", got, sv(s), None, XSD + "boolean")


def t_rdf(shape):
    def thunk(E):
        nm = f"string literal ({shape})"
        tr, m, base = transformer(E)
        s = E.fresh_const("string", STR)
        if shape == "plain":
            literal(E, nm, call(E, tr, "rdf_literal", sv(s)), sv(s), None, XSD + "string")
        elif shape == "typed":
            d = sv(E.fresh_const("datatype", STR), P.NamedNode)
            literal(E, nm, call(E, tr, "rdf_literal", sv(s), d), sv(s), None, d)
        else:
            l = E.fresh_const("tag", STR)
            E.assume(z3.Length(l) > 0)
            E.assume(z3.InRe(l, regex.to_z3(regex.lang("[a-zA-Z]+(-[a-zA-Z0-9]+)*"))))
            literal(E, nm, call(E, tr, "rdf_literal", sv(s), Tok("LANGTAG", ["@", Zs(l)])), sv(s), l, None)
    return thunk


# ---- documents -----------------------------------------------------------------------------------------------

def t_init(E):
    E.bn_ground, E.thread = True, 0
    base = z3.Const("base_iri", STR)
    tr = E.call(TT, [sv(base)], {})
    E.oblige("a new document: the base given", E.zstr(tr.attrs["base_iri"]) == base if "base_iri" in tr.attrs else FALSE)
    std = {"rdf": RDF, "xsd": XSD}
    map_is(E, "a new document: only the built-in prefixes", tr.attrs["prefixes"], lambda k: disj([k == S(p) for p in std]),
           lambda k: z3.If(k == S("rdf"), S(RDF), S(XSD)), "prefix")


def t_parse(streamed, via):
    """turtle.parse gives Lark the text, and the tree to a new transformer with the base given"""
    def thunk(E):
        E.bn_ground, E.thread = True, 0
        nm = via
        base, txt = z3.Const("base_iri", STR), z3.Const("text", STR)
        tree, result = OpaqueV("tree"), SeqV([])
        seen, used = [], []

        def lark_parse(E, a, k):
            seen.append(a[1])
            return tree

        def transform(E, a, k):
            tr = a[0]
            used.append(tr)
            E.oblige(f"{nm}: the tree of the document is transformed", z3.BoolVal(a[1] is tree))
            E.oblige(f"{nm}: starting from the base given", E.zstr(tr.attrs["base_iri"]) == base)
            std = {"rdf": RDF, "xsd": XSD}
            map_is(E, f"{nm}: starting from the built-in prefixes", tr.attrs["prefixes"], lambda k: disj([k == S(p) for p in std]),
                   lambda k: z3.If(k == S("rdf"), S(RDF), S(XSD)), "prefix")
            return result
        E.contracts[type(turtle.turtle_lark).parse] = lark_parse
        E.contracts[Transformer.transform] = transform
        log = []
        E.contracts[P.Graph] = lambda E, a, k: OpaqueV("graph", object, methods={"addAll": lambda E, a, k: log.append(a[0])})
        src = sv(txt)
        if streamed == "stream":
            src = OpaqueV("stream", object, {"$hasattr": lambda n: n in ("readline", "read"), "readline": OpaqueV("readline")},
                          methods={"read": lambda E, a, k: sv(txt)})
        got = outcome(E, lambda: E.call(fn(turtle, via), [src], {"base": sv(base)}))
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        E.oblige(f"{nm}: the text is parsed once", goal(E.equal(seen[0], sv(txt))) if len(seen) == 1 else FALSE)
        E.oblige(f"{nm}: the triples are added", z3.BoolVal(len(used) == 1 and [x for x in log if x is result or E.segments(x)] == [result]))
    return thunk


# ---- terminals -----------------------------------------------------------------------------------------------

B = (r"A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF"
     r"\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF")
UC = B + "_"
C = UC + r"\-0-9\u00B7\u0300-\u036F\u203F-\u2040"
HEX = "[0-9A-Fa-f]"
UCHAR = rf"(\\u{HEX}{{4}}|\\U{HEX}{{8}})"
ECHAR = r"""(\\[tbnrf"'\\])"""
PREFIX = rf"([{B}]([{C}.]*[{C}])?)"
PLX = rf"""(%{HEX}{HEX}|\\[_~.\-!$&'()*+,;=/?#@%])"""
LOCAL = rf"(([{UC}:0-9]|{PLX})(([{C}.:]|{PLX})*([{C}:]|{PLX}))?)"
SPEC = dict(
    IRIREF=rf'<([^\x00-\x20<>"{{}}|^`\\]|{UCHAR})*>',
    PNAME_NS=rf"{PREFIX}?:",
    PNAME_LN=rf"{PREFIX}?:{LOCAL}",
    LANGTAG=r"@[a-zA-Z]+(-[a-zA-Z0-9]+)*",
    INTEGER=r"[+-]?[0-9]+",
    DECIMAL=r"[+-]?[0-9]*\.[0-9]+",
    DOUBLE=r"[+-]?([0-9]+\.[0-9]*[eE][+-]?[0-9]+|\.[0-9]+[eE][+-]?[0-9]+|[0-9]+[eE][+-]?[0-9]+)",
    STRING_LITERAL_QUOTE=rf'"([^\x22\x5c\x0a\x0d]|{ECHAR}|{UCHAR})*"',
    STRING_LITERAL_SINGLE_QUOTE=rf"'([^\x27\x5c\x0a\x0d]|{ECHAR}|{UCHAR})*'",
    STRING_LITERAL_LONG_SINGLE_QUOTE=rf"'''(('|'')?([^'\\]|{ECHAR}|{UCHAR}))*'''",
    STRING_LITERAL_LONG_QUOTE=rf'"""(("|"")?([^"\\]|{ECHAR}|{UCHAR}))*"""',
)


def t_terminals(lk, names, what):
    def thunk(E):
        have = {t.name: t for t in lk.terminals}
        for n in names:
            if n not in have:
                raise Unsupported(f"no terminal {n}")
            got, want = regex.lang(have[n].pattern.to_regexp()), regex.lang(SPEC[n])
            d = regex.difference(got, want)
            nm = f"{what} {n}: the texts of the specification"
            if d is not None:
                nm += f" (differs on {d[0]!r}: {'accepted' if d[1] else 'refused'})"
            E.oblige(nm, z3.BoolVal(d is None))
    return thunk


def tasks():
    f = "TurtleTransformer."
    out = [Task("terminals of the Turtle grammar", t_terminals(turtle.turtle_lark, list(SPEC), "Turtle"), ["turtle.grammar"]),
           Task("rules of the Turtle grammar", ttlgrammar.t_rules(ttlgrammar.TERMS), ["turtle.grammar"]),
           Task("smart_urljoin", t_urljoin, ["smart_urljoin"]),
           Task("IRI reference", t_iriref, [f + "iri", f + "decode_iriref", "validate_iri", "decode_literal", "process_escape", "smart_urljoin"]),
           Task("iri of a prefixed name", t_iri_pass, [f + "iri"]),
           Task("prefixed name", t_pname(True), [f + "prefixed_name", "decode_literal", "process_escape"]),
           Task("prefixed name without local part", t_pname(False), [f + "prefixed_name"]),
           Task("@prefix", t_prefix(False), [f + "prefix_id"]), Task("PREFIX", t_prefix(True), [f + "sparql_prefix", f + "prefix_id"]),
           Task("@base", t_base(False), [f + "base"]), Task("BASE", t_base(True), [f + "sparql_base", f + "base"])]
    for k, q in (("STRING_LITERAL_QUOTE", '"'), ("STRING_LITERAL_SINGLE_QUOTE", "'"), ("STRING_LITERAL_LONG_QUOTE", '"""'),
                 ("STRING_LITERAL_LONG_SINGLE_QUOTE", "'''")):
        out.append(Task(k, t_string(k, q), [f + "string", "decode_literal", "process_escape"]))
    for k, d in (("INTEGER", "integer"), ("DECIMAL", "decimal"), ("DOUBLE", "double")):
        out.append(Task(k, t_number(k, d), [f + "numeric_literal", "BaseParser.make_datatype_literal"]))
    out.append(Task("boolean", t_boolean, [f + "boolean_literal"]))
    for sh in ("plain", "typed", "tagged"):
        out.append(Task(f"string literal ({sh})", t_rdf(sh), [f + "rdf_literal", "BaseParser.make_datatype_literal", "BaseParser.make_language_literal"]))
    out.append(Task("TurtleTransformer.__init__", t_init, [f + "__init__"]))
    for via in ("parse", "parse_string"):
        for st in ("string",) + (("stream",) if via == "parse" else ()):
            out.append(Task(f"turtle.{via} ({st})", t_parse(st, via), ["turtle.parse", "turtle.parse_string"]))
    return out

"""C16: Turtle output reads back."""
import re
import z3
import pymantic.primitives as P
from collections import OrderedDict
from pymantic import serializers, util
from pymantic.parsers.lark import turtle
from pyvc import terms as T, regex, strings
from pyvc.core import Engine, ReturnEx
from pyvc.terms import U, STR, INT, conj, disj, ex
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.verify import *
from . import external, parsing, ttlterms
from .curie import Maps
from .ntriples_ import disjoint, included, ident, begins
from .parsing import Tok
from .text import fn, goal
from .ttlterms import ILLEGAL, SPEC, join, not_in, transformer

S = z3.StringVal
XSD = "http://www.w3.org/2001/XMLSchema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
LEGAL = lambda c: conj([c >= 0, c <= 0x10FFFF, not_in(ILLEGAL)(c)])
legal = z3.Function("legal", STR, z3.BoolSort())
PREFIX_NAME = regex.lang("[A-Za-z]([A-Za-z0-9_.-]*[A-Za-z0-9_-])?")      # prefixes to be used; any other may or may not be
TAG = regex.lang("[a-zA-Z]+(-[a-zA-Z0-9]+)*")


def engine():
    def mkE():
        E = ttlterms.engine()()
        return E
    return mkE


def legal_(e):
    """condition for a text to consist of legal characters"""
    k = e.decl().kind()
    if z3.is_string_value(e):
        return z3.BoolVal(all(ord(c) not in ILLEGAL for c in re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m[1], 16)), e.as_string())))
    if k == z3.Z3_OP_SEQ_CONCAT:
        return conj([legal_(e.arg(i)) for i in range(e.num_args())])
    if k == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), legal_(e.arg(1)), legal_(e.arg(2)))
    if k == z3.Z3_OP_SEQ_EXTRACT:
        return disj([legal(e), legal_(e.arg(0))])
    return legal(e)


def terminals(E):
    lk = turtle.turtle_lark
    return {t.name: regex.lang(t.pattern.to_regexp()) for t in lk.terminals}


# ---- strings -------------------------------------------------------------------------------------------------

def t_string(E):
    nm = "turtle_string_escape"
    s = sv(z3.Const("s", STR))
    got = outcome(E, lambda: E.call(fn(serializers, "turtle_string_escape"), [s], {}))
    E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] != "ok":
        return
    regex.oblige_in(E, f"{nm}: a quoted string", got[1], terminals(E)["STRING_LITERAL_QUOTE"])
    tr, m, base = transformer(E)
    back = ttlterms.call(E, tr, "string", Tok("STRING_LITERAL_QUOTE", strings.pieces(got[1])))
    E.oblige(f"{nm}: the parser reads it", z3.BoolVal(back[0] == "ok"))
    if back[0] == "ok":
        E.oblige(f"{nm}: the parser reads the same string", goal(E.equal(back[1], s)))


# ---- IRIs ----------------------------------------------------------------------------------------------------

def shrink_to(iri, r):
    def c(E, a, k):
        E.oblige("the IRI itself is abbreviated", goal(E.equal(a[1], iri)))
        return r
    return c


def profile(E):
    m = Maps(E, "prefixes", P.PrefixMap)
    return OpaqueV("profile", P.Profile, {"prefixes": m.v, "$truth": True}), m


def t_iri(shape, based):
    """shape: whether PrefixMap.shrink abbreviates the IRI (C07)"""
    def thunk(E):
        nm = f"turtle_iri ({shape}, {'base' if based else 'no base'})"
        prof, m = profile(E)
        base = z3.Const("base", STR)
        if based:
            E.assume(legal(base))
        E.contracts[util.smart_urljoin] = lambda E, a, k: sv(join(E.zstr(a[0]), E.zstr(a[1])))
        w = z3.Const("prefix", STR)
        body = FALSE
        if shape != "not abbreviated":
            loc = []
            if shape == "abbreviated":
                loc = [ident(Units("local", LEGAL))]      # if empty, as for a namespace
                E.assume(legal(StrV(loc).z()))
            iri = StrV([Zs(m.get(w))] + loc, P.NamedNode)
            E.assume(conj([m.has(w), z3.Not(z3.Contains(w, S(":"))), legal(m.get(w))]))
            short = StrV([Zs(w), ":"] + loc)
        else:
            iri = sv(z3.Const("iri", STR), P.NamedNode)
            E.assume(legal(iri.z()))
            short = iri
        E.contracts[P.PrefixMap.shrink] = shrink_to(iri, short)
        # resolving the IRI itself gives it back
        E.assume(join(base if based else S(""), iri.z()) == iri.z())
        args = [iri, prof] + ([sv(base)] if based else [])
        got = outcome(E, lambda: E.call(fn(serializers, "turtle_iri"), args, {}))
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        denotes(E, nm, got[1], iri, base if based else S(""), m)
    return thunk


def denotes(E, nm, text, iri, base, m):
    """the text is one token that the parser reads as the IRI"""
    ps = strings.pieces(text)
    if isinstance(ps[0], str) and ps[0].startswith("<"):
        ok = isinstance(ps[-1], str) and ps[-1].endswith(">")
        E.oblige(f"{nm}: ends with a bracket", z3.BoolVal(ok))
        if not ok:
            return
        inner = StrV([ps[0][1:-1]] if len(ps) == 1 else [ps[0][1:]] + ps[1:-1] + [ps[-1][:-1]]).z()
        E.oblige(f"{nm}: only characters that may stand in an IRI", legal_(z3.simplify(inner)))
        E.oblige(f"{nm}: the reference resolves to the IRI", join(base, inner) == iri.z())
        return
    i = next((i for i, p in enumerate(ps) if isinstance(p, str) and ":" in p), None)
    if i is None:
        E.oblige(f"{nm}: an IRI reference or a prefixed name", FALSE)
        return
    j = ps[i].index(":")
    pre, loc = StrV(ps[:i] + [ps[i][:j]]), [p for p in [ps[i][j + 1:]] + ps[i + 1:] if p != ""]
    p = pre.z()
    declared(E, nm, m, p)
    regex.oblige_in(E, f"{nm}: a prefixed name of the grammar", StrV(["p:"] + loc), LN)
    tr, m2, b2 = transformer(E)
    E.assume(conj([m2.has(p), m2.get(p) == m.get(p)]))
    kind = "PNAME_LN" if loc else "PNAME_NS"
    got = ttlterms.call(E, tr, "prefixed_name", Tok(kind, [Zs(p), ":"] + loc))
    back = got[1] if got[0] == "ok" else None
    E.oblige(f"{nm}: the parser reads the prefixed name", z3.BoolVal(isinstance(back, (str, StrV))))
    if isinstance(back, (str, StrV)):
        E.oblige(f"{nm}: the prefixed name denotes the IRI", goal(E.equal(back, StrV(iri.pieces))))


LN = regex.alt(regex.lang(SPEC["PNAME_LN"]), regex.lang(SPEC["PNAME_NS"]))


def declared(E, nm, m, p):
    """the prefix is one that serialize_turtle declares: bound, and a name of the grammar other than rdf"""
    E.oblige(f"{nm}: the prefix is bound", m.has(p))
    E.oblige(f"{nm}: the prefix is declared", p != S("rdf"))
    E.oblige(f"{nm}: the prefix is a legal name", z3.InRe(p, regex.to_z3(regex.alt(PREFIX_NAME, regex.lang("")))))


# ---- literals ------------------------------------------------------------------------------------------------

def split_text(ps):
    """(quoted text, what follows)"""
    us = strings.unit(ps)
    ends = [i for i, x in enumerate(us) if x == '"']
    if len(ends) != 2 or ends[0] != 0:
        return None, us
    j = lambda xs: strings.mkstr(regex.regroup(xs))
    return j(us[:ends[1] + 1]), us[ends[1] + 1:]


def iri_token(E, seen):
    """turtle_iri by its contract: a token that denotes the IRI"""
    def c(E, a, k):
        seen.append((a, k))
        return sv(z3.Const("iri_text", STR))
    return c


def is_xsd(d, t):
    return d == S(XSD + t)


def t_literal(kind):
    nm = f"turtle_repr ({kind})"
    BARE = {"integer": "INTEGER", "decimal": "DECIMAL", "double": "DOUBLE", "boolean": "__ANON_5"}

    def thunk(E):
        prof, m = profile(E)
        v = z3.Const("value", STR)
        kw = {}
        if kind == "tagged":
            l = z3.Const("lang", STR)
            E.string_langs = {l.sexpr(): TAG}
            E.assume(z3.InRe(l, regex.to_z3(TAG)))
            kw["language"] = sv(l)
        elif kind == "xsd:string":
            kw["datatype"] = StrV([XSD + "string"], P.NamedNode)
        elif kind in BARE:
            kw["datatype"] = StrV([XSD + kind], P.NamedNode)
        elif kind == "other datatype":
            d = z3.Const("datatype", STR)
            E.assume(z3.Not(disj([is_xsd(d, t) for t in ("string",) + tuple(BARE)])))
            E.assume(z3.Length(d) > 0)
            kw["datatype"] = sv(d, P.NamedNode)
        lit = E.call(P.Literal, [sv(v)], kw)
        seen = []
        E.contracts[fn(serializers, "turtle_iri")] = iri_token(E, seen)
        nmap, maker = OpaqueV("names"), OpaqueV("name maker")
        got = outcome(E, lambda: E.call(fn(serializers, "turtle_repr"), [lit, prof, nmap, maker, sv(z3.Const("base", STR))], {}))
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        ps = strings.pieces(got[1])
        tr, m2, base = transformer(E)
        L = terminals(E)
        if len(ps) == 1 and isinstance(ps[0], Zs):
            # written bare
            E.oblige(f"{nm}: written bare only as a number or boolean", z3.BoolVal(kind in BARE))
            if kind not in BARE:
                return
            E.oblige(f"{nm}: written as it is", ps[0].e == v)
            E.oblige(f"{nm}: such a token of the grammar", z3.InRe(v, regex.to_z3(L[BARE[kind]])))
            back = ttlterms.call(E, tr, "boolean_literal" if kind == "boolean" else "numeric_literal", Tok(BARE[kind], ps))
            reads_literal(E, nm, back, lit)
            return
        text, rest = split_text(ps)
        E.oblige(f"{nm}: a quoted text", z3.BoolVal(text is not None))
        if text is None:
            return
        regex.oblige_in(E, f"{nm}: a quoted string of the grammar", text, L["STRING_LITERAL_QUOTE"])
        string = ttlterms.call(E, tr, "string", Tok("STRING_LITERAL_QUOTE", strings.pieces(text)))
        E.oblige(f"{nm}: the parser reads the text", z3.BoolVal(string[0] == "ok"))
        if string[0] != "ok":
            return
        kids = [string[1]]
        if kind == "tagged":
            tag = strings.mkstr(regex.regroup(rest))
            E.oblige(f"{nm}: followed by the language tag", goal(E.equal(tag, StrV(["@", Zs(l)]))))
            regex.oblige_in(E, f"{nm}: a language tag of the grammar", tag, L["LANGTAG"])
            kids.append(Tok("LANGTAG", strings.pieces(tag)))
        elif kind in BARE or kind == "other datatype":
            # a single ^ is the known finding
            carets = [x for x in rest[:-1]]
            E.oblige(f"{nm}: followed by its datatype", z3.BoolVal(carets in (["^"], ["^", "^"]) and isinstance(rest[-1], Zs) and len(seen) == 1))
            if len(seen) == 1:
                a, k = seen[0]
                E.oblige(f"{nm}: the datatype is written", goal(E.equal(a[0], kw["datatype"])))
                E.oblige(f"{nm}: for the declared prefixes", z3.BoolVal(len(a) > 1 and a[1] is prof))
            kids.append(kw["datatype"])
        else:
            E.oblige(f"{nm}: nothing follows the text", z3.BoolVal(rest == []))
        back = ttlterms.call(E, tr, "rdf_literal", *kids)
        reads_literal(E, nm, back, lit)
    return thunk


def reads_literal(E, nm, back, lit):
    """the literal read is the literal written; a plain one reads as an xsd:string"""
    E.oblige(f"{nm}: the parser reads it", z3.BoolVal(back[0] == "ok"))
    if back[0] != "ok":
        return
    val, lang, dt = (E.getattr_(lit, n) for n in ("value", "language", "datatype"))
    if lang is None and dt is None:
        dt = StrV([XSD + "string"], P.NamedNode)
    for n, w in (("value", val), ("language", lang), ("datatype", dt)):
        b = E.getattr_(back[1], n)
        E.oblige(f"{nm}: the parser reads the {n}", z3.BoolVal(b is None) if w is None else (goal(E.equal(b, w)) if b is not None else FALSE))


def t_named(E):
    nm = "turtle_repr of an IRI"
    prof, m = profile(E)
    iri = sv(z3.Const("iri", STR), P.NamedNode)
    base = sv(z3.Const("base", STR))
    seen = []
    E.contracts[fn(serializers, "turtle_iri")] = iri_token(E, seen)
    got = outcome(E, lambda: E.call(fn(serializers, "turtle_repr"), [iri, prof, OpaqueV("names"), OpaqueV("name maker"), base], {}))
    E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] != "ok":
        return
    E.oblige(f"{nm}: what turtle_iri gives", goal(E.equal(got[1], sv(z3.Const("iri_text", STR)))))
    E.oblige(f"{nm}: turtle_iri of it", z3.BoolVal(len(seen) == 1))
    if len(seen) == 1:
        a, k = seen[0]
        E.oblige(f"{nm}: the IRI itself", goal(E.equal(a[0], iri)))
        E.oblige(f"{nm}: for the declared prefixes", z3.BoolVal(len(a) > 1 and a[1] is prof))
        b = a[2] if len(a) > 2 else k.get("base")
        E.oblige(f"{nm}: relative to the declared base, if at all", TRUE if b is None else goal(E.equal(b, base)))


# ---- blank nodes ---------------------------------------------------------------------------------------------

def t_bnode(E):
    """a node that has a name keeps it; another gets the next one"""
    nm = "turtle_repr of a blank node"
    prof, m = profile(E)
    has, get = z3.Function("has_name", U, z3.BoolSort()), z3.Function("name_of", U, STR)
    names = MapV(E, U, STR, lambda k: has(k), lambda k: get(k), cls=OrderedDict, name="names")
    node = z3.Const("node", U)
    E.assume(conj([T.isBN(node), z3.Not(T.isNN(node)), z3.Not(T.isLit(node)), node != T.NONE]))
    taken = []
    new = z3.Const("next_name", STR)

    def nxt(E, a, k):
        taken.append(1)
        return sv(new)
    maker = OpaqueV("name maker", object, methods={"__next__": nxt})
    got = outcome(E, lambda: E.call(fn(serializers, "turtle_repr"), [UV(node), prof, names, maker], {}))
    E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] != "ok":
        return
    E.oblige(f"{nm}: its name, or the next one", E.zstr(got[1]) == z3.If(has(node), get(node), new))
    E.oblige(f"{nm}: takes a name just if it has none", z3.If(has(node), z3.BoolVal(len(taken) == 0), z3.BoolVal(len(taken) == 1)))
    x = E.fresh_const("other", U)
    E.oblige(f"{nm}: has a name from then on", names.has(x) == disj([has(x), x == node]))
    E.oblige(f"{nm}: which it keeps, like the others", z3.Implies(names.has(x), names.get(x) == z3.If(has(x), get(x), new)))


def t_names(E):
    """the default names: legal, and all different"""
    nm = "default_bnode_name_generator"
    out = generated(E, fn(serializers, "default_bnode_name_generator"))
    k, l = E.fresh_const("k", INT), E.fresh_const("l", INT)
    E.assume(conj([k >= 0, l >= 0, k != l]))
    a, b = out(k), out(l)
    E.string_langs = {z3.simplify(e).sexpr(): regex.lang("[0-9]+") for e in (z3.IntToStr(k), z3.IntToStr(l))}
    E.oblige(f"{nm}: never the same name twice", E.zstr(a) != E.zstr(b))
    for p in [q for v in (a,) for q in strings.pieces(v) if isinstance(q, Zs)]:
        z = z3.simplify(p.e)
        if z.decl().name() in ("str.from_int", "int.to.str"):
            E.oblige(f"{nm}: a number in the name is not negative", z.arg(0) >= 0)
            E.string_langs[p.e.sexpr()] = regex.lang("[0-9]+")
    regex.oblige_in(E, f"{nm}: a blank node label of the grammar", a, terminals(E)["BLANK_NODE_LABEL"])


def generated(E, f):
    """the k-th item of a generator that loops for ever over integer locals: they are affine in k (guessed from one iteration,
    then proved for an arbitrary one)"""
    res = []

    def hook(E, s, fr):
        vs = {n: E.zint(v) for n, v in fr.locals.items() if isinstance(v, (int, IntV)) and not isinstance(v, bool)}
        if set(vs) != set(fr.locals):
            raise Unsupported("generator with other locals")
        if fr.out.items:
            raise Unsupported("items before the loop")

        def once(vals):
            fr.out.items = ()
            fr.locals = {n: IntV(e) for n, e in vals.items()}
            E.block(s.body, fr)
            if len(fr.out.items) != 1 or not isinstance(fr.out.items[0], One):
                raise Unsupported("not one item per round")
            return {n: z3.simplify(E.zint(v)) for n, v in fr.locals.items()}, fr.out.items[0].elem
        after, _ = once(vs)
        step = {n: z3.simplify(after[n] - vs[n]) for n in vs}
        at = lambda k: {n: z3.simplify(vs[n] + step[n] * k) for n in vs}
        k = E.fresh_const("round", INT)
        E.assume(k >= 0)
        nxt, _ = once(at(k))
        for n in vs:
            E.oblige("the generator's locals advance evenly", nxt[n] == at(k + 1)[n])
        res.append(lambda k: once(at(k))[1])
        raise ReturnEx(None)
    E.while_hook = hook
    got = outcome(E, lambda: E.segments(E.call(f, [], {})))
    if got[0] != "ok" or len(res) != 1:
        raise Unsupported("no endless loop")
    return res[0]


# ---- documents -----------------------------------------------------------------------------------------------

name_of = z3.Function("turtle_name", U, STR)        # what turtle_repr gives for a term, in one document
obj_text = z3.Function("object_text", U, STR)       # what an object is written as
list_len = z3.Function("list_length", U, INT)
list_item = z3.Function("list_item", U, INT, U)


class Doc(GhostV):
    """what has been written so far, as a state of the grammar: (place, subject, predicate, whether a blank or a mark
    precedes). Written statements are collected."""

    def __init__(self, E, nm, is_list, iri_of, base, ns):
        super().__init__(E, ("start", None, None, True), nm)
        self.E, self.nm, self.is_list, self.base, self.ns = E, nm, is_list, base, ns
        self.triples = SetV(E, T.T3, name="statements written")
        self.declared = SetV(E, STR, name="prefixes declared")
        self.based = SetV(E, STR, name="base declared")

    def bad(self, why):
        if self.state[0] != "spoiled":
            self.E.oblige(f"{self.nm}: a document of the grammar ({why})", FALSE)
        self.state = ("spoiled", None, None, True)

    def write(self, E, a, k):
        v = a[0]
        ps = strings.pieces(strings.as_str(E, v))
        if ps and isinstance(ps[0], str) and ps[0].startswith("@"):
            self.directive(ps)
        else:
            i = 0
            while i < len(ps):
                i = self.piece(ps, i)
        return IntV(z3.FreshConst(INT, "written"))

    def directive(self, ps):
        E = self.E
        if self.state[0] != "start":
            return self.bad("a directive after the first statement")
        if len(ps) == 3 and ps[0] == "@base <" and isinstance(ps[2], str) and ps[2].rstrip() == "> ." and isinstance(ps[1], Zs):
            E.oblige(f"{self.nm}: the base given is declared", ps[1].e == self.base)
            self.based.add(sv(ps[1].e))
        elif len(ps) == 5 and ps[0] == "@prefix " and ps[2] == ": <" and isinstance(ps[4], str) and ps[4].rstrip() == "> ." \
                and isinstance(ps[1], Zs) and isinstance(ps[3], Zs):
            p = ps[1].e
            E.oblige(f"{self.nm}: a prefix declared is a name of the grammar", z3.InRe(p, regex.to_z3(regex.alt(GRAMMAR_PREFIX, regex.lang("")))))
            E.oblige(f"{self.nm}: a prefix is declared for its namespace", conj([self.ns.has(p), ps[3].e == self.ns.get(p)]))
            self.declared.add(sv(p))
        else:
            raise Unsupported(f"directive {ps!r}")

    def mark(self, c):
        where, s, p, blank = self.state
        if c in " \t\n":
            self.state = (where, s, p, True)
        elif c == ";" and where == "written":
            self.state = ("verb", s, None, True)
        elif c == "," and where == "written":
            self.state = ("object", s, p, True)
        elif c == "." and where in ("verb", "written") and blank:
            self.state = ("top", None, None, False)
        else:
            self.bad(f"{c!r} in place {where!r}")

    def term(self, t, text=True):
        """a term that stands for itself"""
        where, s, p, blank = self.state
        if not blank:
            return self.bad("a term right after another")
        if where in ("start", "top"):
            self.state = ("verb", t, None, False)
        elif where == "verb":
            self.state = ("object", s, t, False)
        elif where == "object":
            if text:
                self.E.oblige(f"{self.nm}: a list is written as one", z3.Not(self.is_list(t)))
            self.triples.add(self.E.from_term(T.mk(T.T3, s, p, t), T.T3))
            self.state = ("written", s, p, False)
        else:
            self.bad(f"a term in place {where!r}")

    def piece(self, ps, i):
        E = self.E
        x = ps[i]
        if isinstance(x, str):
            for n, c in enumerate(x):
                if c == "(":
                    # a collection: its items between blanks
                    j = i + 1
                    if x[n + 1:].strip() or len(ps) < j + 2 or not isinstance(ps[j], JoinP) or not isinstance(ps[j + 1], str) or ps[j + 1].lstrip()[:1] != ")":
                        raise Unsupported("collection of another shape")
                    h = self.items(ps[j])
                    self.E.oblige(f"{self.nm}: only a list is written as one", self.is_list(h))
                    self.term(h, False)
                    rest = ps[j + 1].lstrip()[1:]
                    ps[j + 1] = rest
                    return j + 1
                self.mark(c)
            return i + 1
        if isinstance(x, Zs):
            if E.string_langs.get(x.e.sexpr()) == regex.lang(" *"):
                return i + 1
            if x.e.decl().eq(name_of):
                self.term(x.e.arg(0))
                return i + 1
            if x.e.decl().eq(obj_text) and self.state[0] == "object":
                self.term(x.e.arg(0), False)
                return i + 1
        raise Unsupported(f"text {x!r} in a document")

    def items(self, j):
        """the node whose list items these are"""
        E = self.E
        if not isinstance(j.sep, str):
            raise Unsupported("another separator")
        if j.sep == "" or j.sep.strip():
            self.bad("items without blanks between them")
        if len(j.segs) != 1 or not isinstance(j.segs[0], Seg) or len(j.segs[0].bs) != 1:
            raise Unsupported("other items")
        s = j.segs[0]
        e = strings.pieces(strings.as_str(E, s.elem))
        if len(e) != 1 or not isinstance(e[0], Zs) or not (e[0].e.decl().eq(obj_text) or e[0].e.decl().eq(name_of)):
            raise Unsupported("items of another shape")
        kind = e[0].e.decl()
        it = z3.simplify(e[0].e.arg(0))
        if not it.decl().eq(list_item):
            raise Unsupported("items of another list")
        h = it.arg(0)
        q = E.fresh_const("q", INT)
        g, el = s.inst([q])
        if kind.eq(name_of):
            E.oblige(f"{self.nm}: a list inside a list is written as one", z3.Implies(g, z3.Not(self.is_list(list_item(h, q)))))
        E.oblige(f"{self.nm}: a list is written with all its items, in order", conj([
            g == conj([q >= 0, q < list_len(h)]), E.zstr(el) == kind(list_item(h, q)), z3.BoolVal(isinstance(s.ordered, IdxOrd) and not s.ordered.desc)]))
        return h


GRAMMAR_PREFIX = regex.lang(ttlterms.PREFIX)


class ListsV(OpaqueV):
    """the collections found: node -> its items"""


def t_document(based, profiled):
    nm = "serialize_turtle"

    def thunk(E):
        E.symbolic_join = True
        E.string_langs = {}
        has = z3.Function("in_graph", T.T3, z3.BoolSort())
        is_list, member = z3.Function("is_list", U, z3.BoolSort()), z3.Function("in_list", U, z3.BoolSort())
        base = z3.Const("base", STR)
        prof, m = profile(E)
        if not profiled:
            E.contracts[P.Profile] = lambda E, a, k: prof
        doc = Doc(E, nm, is_list, None, base, m)

        def match(E, a, k):
            kw = dict(zip(("subject", "predicate", "object"), a))
            kw.update(k)
            x = z3.FreshConst(T.T3, "x")
            g = [has(x)]
            for f, v in kw.items():
                if v is not None:
                    g.append(part(x, f) == E.term(v, U))
            return SeqV([Seg([x], conj(g), E.from_term(x, T.T3))])

        def subjects(E, a, k):
            n, x = z3.FreshConst(U, "n"), z3.FreshConst(T.T3, "x")
            return SeqV([Seg([n], ex([x], conj([has(x), part(x, "subject") == n])), UV(n))])
        graph = OpaqueV("graph", P.Graph, {"$truth": None}, methods={
            "match": match, "subjects": subjects, "__iter__": lambda E, a, k: match(E, [], {})})
        graph.attrs.pop("$truth")
        used = {}

        def repr_(E, a, k):
            kw = dict(zip(("node", "profile", "name_map", "bnode_name_maker", "base"), a))
            kw.update(k)
            E.oblige(f"{nm}: terms are written for the declared prefixes", z3.BoolVal(kw["profile"] is prof))
            b = kw.get("base")
            E.oblige(f"{nm}: terms are written relative to the declared base, if any",
                     z3.BoolVal(b is None) if not based else z3.BoolVal(b is None or isinstance(b, StrV) and b.z().eq(base)))
            for n in ("name_map", "bnode_name_maker"):
                same = used.setdefault(n, kw[n])
                E.oblige(f"{nm}: blank nodes are named once for the document", z3.BoolVal(same is kw[n] and kw[n] is not None))
            return sv(name_of(E.term(kw["node"], U)))
        E.contracts[fn(serializers, "turtle_repr")] = repr_
        node_key = lambda E, a: E.term(a[0], U)
        lists = OpaqueV("collections", dict, {}, methods={
            "__contains__": lambda E, a, k: BoolV(is_list(node_key(E, a))),
            "__getitem__": lambda E, a, k: items_of(E, node_key(E, a))})
        members = SetV(E, U, lambda x: member(x), name="members")
        found = []

        def collections(E, a, k):
            found.append(a[0])
            return TupV(tuple, [lists, members])
        E.contracts[fn(serializers, "turtle_collections")] = collections
        E.rec_hook = lambda E, f, loc: sv(obj_text(E.term(list(loc.values())[0], U)))
        made = []
        maker = OpaqueV("names")
        gen = OpaqueV("generator", methods={"__call__": lambda E, a, k: (made.append(1), maker)[1]})
        E.contracts[fn(serializers, "default_bnode_name_generator")] = lambda E, a, k: (made.append(1), maker)[1]
        f = OpaqueV("file", object, methods={"write": doc.write})
        kw = {}
        if based:
            kw["base"] = sv(base)
        if profiled:
            kw["profile"] = prof
        got = outcome(E, lambda: E.call(fn(serializers, "serialize_turtle"), [graph, f], kw))
        E.oblige(f"{nm}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        E.oblige(f"{nm}: the lists are those of the graph", z3.BoolVal(len(found) == 1 and found[0] is graph))
        E.oblige(f"{nm}: one supply of names", z3.BoolVal(len(made) == 1 and used.get("bnode_name_maker", maker) is maker))
        E.oblige(f"{nm}: ends after a statement", z3.BoolVal(doc.state[0] in ("start", "top")))
        x = E.fresh_const("x", T.T3)
        E.oblige(f"{nm}: writes the statements of the graph whose subject is not part of a written list, and no others",
                 doc.triples.mem(x) == conj([has(x), z3.Not(member(part(x, "subject")))]))
        p = E.fresh_const("p", STR)
        E.oblige(f"{nm}: declares every prefix that may be used", z3.Implies(
            conj([m.has(p), p != S("rdf"), z3.InRe(p, regex.to_z3(regex.alt(PREFIX_NAME, regex.lang(""))))]), doc.declared.mem(p)))
        E.oblige(f"{nm}: declares the base given", doc.based.mem(base) if based else z3.Not(doc.based.mem(p)))
    return thunk


def part(x, f):
    return T.proj(T.T3, ("subject", "predicate", "object").index(f), x)


def items_of(E, h):
    return idx_seq(list_len(h), lambda q: UV(list_item(h, q)))


# ---- collections (bounded) -----------------------------------------------------------------------------------

def well_written(ts, collections, members):
    """None, or why the lists found cannot be written as collections without loss. Written that way: every chain of cells from
    a head to nil, each cell a blank node with one first and one rest and nothing else, referred to once; the reference to a
    head is not a rest link inside a list; no list is inside itself."""
    FIRST, REST, NIL = (P.NamedNode(RDF + x) for x in ("first", "rest", "nil"))
    of, to = {}, {}
    for t in ts:
        of.setdefault(t.subject, []).append(t)
        to.setdefault(t.object, []).append(t)
    owner = {}
    for h, items in collections.items():
        n, got, seen = h, [], set()
        while n != NIL:
            out = {t.predicate: t.object for t in of.get(n, ())}
            if not isinstance(n, P.BlankNode) or n in seen or len(of.get(n, ())) != 2 or set(out) != {FIRST, REST}:
                return "a cell that is none"
            if len(to.get(n, ())) != 1:
                return "a cell referred to more than once, or not at all"
            if n in owner:
                return "a cell of two lists"
            seen.add(n)
            owner[n] = h
            got.append(out[FIRST])
            n = out[REST]
        if list(items) != got or not got:
            return "other items"
    if set(owner) != set(members):
        return "other members"
    for h in collections:
        r = to[h][0]
        if r.predicate == REST and r.subject in owner:
            return "a list in the middle of another"
        n, seen = h, set()
        while n in owner:
            n = owner[n]
            if n in seen:
                return "a list inside itself"
            seen.add(n)
            n = to[n][0].subject
    return None


def list_graphs():
    """all graphs of up to three blank nodes, each with no triples, or first and rest to any node, or one of a few malformed
    shapes, referred to from outside in five ways; and in two orders of insertion"""
    import itertools
    FIRST, REST, NIL, p, s = (P.NamedNode(x) for x in (RDF + "first", RDF + "rest", RDF + "nil", "http://a/p", "http://a/s"))
    bs = [P.BlankNode() for _ in range(3)]
    nodes = bs + [NIL, s]
    good = [[]] + [[(FIRST, x), (REST, y)] for x in nodes for y in nodes]
    odd = [[(REST, NIL)], [(FIRST, s)], [(FIRST, s), (REST, NIL), (p, s)], [(FIRST, s), (REST, NIL), (p, bs[0])],
           [(FIRST, s), (FIRST, NIL), (REST, NIL)], [(FIRST, s), (REST, NIL), (REST, bs[0])], [(FIRST, s), (p, NIL)]]
    refs = [[], [(s, p, bs[0])], [(s, p, bs[0]), (s, p, bs[1])], [(s, p, bs[0]), (s, REST, bs[0])], [(s, REST, bs[0]), (s, FIRST, bs[1])]]
    for n, (a, b, c) in enumerate(itertools.chain(itertools.product(good, good, good), itertools.product(odd, good + odd, [[]] + odd),
                                                  itertools.product(good, odd, [[]] + odd))):
        for r in refs[n % 2::2] if len(a) + len(b) + len(c) == 6 else refs:
            ts = [(x, q, o) for x, qs in zip(bs, (a, b, c)) for q, o in qs] + r
            yield ts if n % 3 else ts[::-1]


def t_collections(E):
    """bounded: the real function on every graph of list_graphs()"""
    f = fn(serializers, "turtle_collections")
    bad, n = None, 0
    for ts in list_graphs():
        g = P.Graph()
        for t in ts:
            g.add(P.Triple(*t))
        n += 1
        try:
            why = well_written(list(g), *f(g))
        except Exception as e:  # noqa
            why = f"{type(e).__name__}: {e}"
        if why:
            bad = f"{why}: {ts!r}"
            break
    E.oblige(f"turtle_collections: only chains of otherwise unused cells are written as lists (bounded: {n} graphs)" + (f" ({bad[:600]})" if bad else ""),
             z3.BoolVal(bad is None))


# ---- tokens --------------------------------------------------------------------------------------------------

def t_tokens(E):
    """no token gets longer by what is written after it, and numbers and names are not something else"""
    L = terminals(E)
    anything = regex.star(("cls", ((0, 0x10FFFF),)))
    after = regex.norm(tuple((ord(c), ord(c)) for c in " ,;)\n"))
    names = ["IRIREF", "PNAME_NS", "PNAME_LN", "BLANK_NODE_LABEL", "LANGTAG", "INTEGER", "DECIMAL", "DOUBLE", "STRING_LITERAL_QUOTE"]
    for k in names:
        if k not in L:
            raise Unsupported(f"no terminal {k}")
        E.oblige(f"{k} ends where it ends", z3.BoolVal(disjoint(L[k], regex.cat(L[k], regex.cat(("cls", after), anything)))))
    kinds = [k for k in names if k not in ("PNAME_NS", "PNAME_LN")]
    for i, a in enumerate(kinds):
        for b in kinds[:i]:
            E.oblige(f"no text is both {a} and {b}", z3.BoolVal(disjoint(L[a], L[b])))
    word = regex.lang("[A-Za-z]+")
    for k in ("PNAME_NS", "PNAME_LN"):
        E.oblige(f"no word is a {k}", z3.BoolVal(disjoint(L[k], word)))
        for b in kinds:
            if b != "BLANK_NODE_LABEL":
                E.oblige(f"no text is both {k} and {b}", z3.BoolVal(disjoint(L[k], L[b])))
        E.oblige(f"no {k} begins like a blank node", z3.BoolVal(disjoint(L[k], regex.cat(regex.lang("_:"), anything))))


def tasks():
    S_ = "TurtleTransformer."
    out = [Task("turtle_string_escape", t_string, ["turtle_string_escape", S_ + "string", "decode_literal"])]
    for sh in ("abbreviated", "a namespace", "not abbreviated"):
        for b in (False, True):
            out.append(Task(f"turtle_iri ({sh}, {'base' if b else 'no base'})", t_iri(sh, b),
                            ["turtle_iri", "escape_prefix_local", S_ + "prefixed_name", "decode_literal"]))
    for k in ("plain", "tagged", "xsd:string", "integer", "decimal", "double", "boolean", "other datatype"):
        out.append(Task(f"turtle_repr ({k})", t_literal(k), ["turtle_repr", "turtle_string_escape", S_ + "rdf_literal", S_ + "numeric_literal"]))
    out += [Task("turtle_repr of an IRI", t_named, ["turtle_repr"]), Task("turtle_repr of a blank node", t_bnode, ["turtle_repr"]),
            Task("serialize_turtle", t_document(False, True), ["serialize_turtle"]),
            Task("serialize_turtle (base)", t_document(True, True), ["serialize_turtle"]),
            Task("serialize_turtle (no profile)", t_document(False, False), ["serialize_turtle"]),
            Task("default_bnode_name_generator", t_names, ["default_bnode_name_generator"]), Task("tokens of Turtle output", t_tokens, ["turtle.grammar"])]
    b = Task("turtle_collections (bounded)", t_collections, ["turtle_collections"])
    b.bounded = "turtle_collections: run on all graphs of three blank nodes with list shapes listed in contracts/turtle_out.py (about 50000 graphs)"
    return out + [b]

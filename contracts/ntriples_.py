"""C05: N-Triples and N-Quads read back."""
import z3
import pymantic.primitives as P
from pymantic import serializers, util
from pymantic.parsers.lark import ntriples, nquads, base as lbase
from pyvc import terms as T, regex, strings
from pyvc.core import Engine
from pyvc.terms import U, STR, INT, conj, disj
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.verify import *
from . import cfg, iris, parsing, dataset as D
from .bnodes import node
from .iris import URI_CS, scalar, quoted
from .parsing import Tok
from .text import fn, goal

S = z3.StringVal
WS = regex.lang("[ \\t]*")
TAG = regex.lang("[a-zA-Z]+(-[a-zA-Z0-9]+)*")
PARSERS = (("N-Triples", ntriples, "nt_lark"), ("N-Quads", nquads, "nq_lark"))
# how tokens begin
BEGIN = {"<": "IRIREF", "_": "BLANK", '"': "STRING", "@": "LANGTAG", ".": "DOT", "^": "TYPED", "\n": "EOL", " ": "WS"}
RULES = {"quads_start": "quad? (EOL quad)* EOL?", "quad": "(iriref|blank_node_label) iriref (iriref|blank_node_label|literal) (iriref|blank_node_label)? DOT",
         "triples_start": "triple? (EOL triple)* EOL?", "triple": "(iriref|blank_node_label) iriref (iriref|blank_node_label|literal) DOT",
         "literal": "STRING (TYPED iriref|LANGTAG)?", "iriref": "IRIREF", "blank_node_label": "BLANK"}


def engine():
    def mkE():
        E = D.engine()()
        parsing.install(E)
        E.contracts[iris.urllib.parse.quote] = iris.quote_contract
        return E
    return mkE


def lark(mod, nm):
    lk = getattr(mod, nm, None)
    if lk is None or not hasattr(lk, "rules"):
        raise Unsupported(f"no grammar {nm}")
    return lk


def begins(name, l):
    f = cfg.first(l)
    for c, n in BEGIN.items():
        if regex.has(f, ord(c)):
            return n
    return ("terminal", name)


def languages(lk):
    """kind of token -> language of the grammar's terminal"""
    out = {}
    for t in lk.terminals:
        l = regex.lang(t.pattern.to_regexp())
        n = begins(t.name, l)
        if n in out:
            raise Unsupported("two terminals for " + str(n))
        out[n] = l
    return out


# ---- the grammar ---------------------------------------------------------------------------------------------

def t_grammar(nm, mod, lkn, start):
    def thunk(E):
        lk = lark(mod, lkn)
        ls = cfg.Letters()
        g = cfg.Grammar(lk, begins, ls)
        known = set(BEGIN.values())
        want = {k: cfg.spec(ls, v, known) for k, v in RULES.items() if ("quad" in k) == (nm == "N-Quads") or "start" not in k and k not in ("quad", "triple")}
        if set(g.trees) != set(want):
            raise Unsupported(f"other trees: {sorted(set(g.trees) ^ set(want))}")
        for k in sorted(want):
            d = regex.difference(g.trees[k], want[k])
            E.oblige(f"{nm}: the parts of {k}" + (f" (not: {ls.name(d[0])})" if d else ""), z3.BoolVal(d is None))
        flt = cfg.filtered(lk, begins)
        if any(flt.get(t) not in (None, {True}) for t in ("DOT", "TYPED")) or any(flt.get(t) not in (None, {False}) for t in ("IRIREF", "BLANK", "STRING", "LANGTAG")):
            raise Unsupported("other tokens left out of the trees")
        L = languages(lk)
        ts = sorted(L, key=str)
        for i, a in enumerate(ts):
            for b in ts[:i]:
                E.oblige(f"{nm}: tokens of two kinds never begin alike", z3.BoolVal(not regex.cinter(cfg.first(L[a]), cfg.first(L[b]))))
        # what the serializer writes after a token does not make it longer
        anything = regex.star(("cls", ((0, 0x10FFFF),)))
        for k, after in (("IRIREF", " "), ("BLANK", " "), ("LANGTAG", " "), ("STRING", " @^"), ("TYPED", "<"), ("DOT", "\n"), ("EOL", '<_"'), ("WS", '<_".')):
            if k not in L:
                raise Unsupported("no token for " + k)
            cs = regex.norm(tuple((ord(c), ord(c)) for c in after))
            longer = regex.cat(L[k], regex.cat(("cls", cs), anything))
            E.oblige(f"{nm}: {k} ends where it ends", z3.BoolVal(disjoint(L[k], longer)))
        ign = {t for t in lk.ignore_tokens}
        E.oblige(f"{nm}: blanks and tabs between the parts are skipped",
                 z3.BoolVal(any(t.name in ign and begins(t.name, regex.lang(t.pattern.to_regexp())) == "WS" for t in lk.terminals) and
                            included(regex.lang("[ \\t]+"), L["WS"])))
        E.oblige(f"{nm}: a line ends with a line feed", z3.BoolVal(included(regex.lang("\n"), L["EOL"])))
        E.oblige(f"{nm}: a dot ends a statement", z3.BoolVal(included(regex.lang("\\."), L["DOT"])))
    return thunk


def included(a, b):
    return regex.included(a, b) is None


def disjoint(a, b):
    """no string is in both: product of derivatives"""
    ats = regex.atoms(a, b)
    seen, todo = {(a, b)}, [(a, b)]
    while todo:
        x, y = todo.pop()
        if regex.nullable(x) and regex.nullable(y):
            return False
        for lo, hi in ats:
            p = (regex.deriv(x, lo), regex.deriv(y, lo))
            if regex.NULL not in p and p not in seen:
                seen.add(p)
                todo.append(p)
                if len(seen) > 20000:
                    raise Unsupported("regular expressions too large")
    return True


# ---- terms ---------------------------------------------------------------------------------------------------

def ident(u):
    c = z3.FreshConst(INT, "c")
    return FM(u, c, [(TRUE, [Ch(c)])])


def legal_iri(name="iri"):
    return Units(name, lambda c: regex.cond_in(URI_CS, c))


def nn(ps):
    return StrV(ps, P.NamedNode)


def nt(E, x):
    r = outcome(E, lambda: E.call(E.getattr_(x, "toNT"), [], {}))
    return r


def transformer(E, lk):
    E.bn_ground = True
    E.u_identity = True
    E.thread = 0
    tf = lk.options.transformer
    if tf is None:
        raise Unsupported("no embedded transformer")
    p = E.call(type(tf), [], {})
    g = OpaqueV("graph")
    E.call(E.getattr_(p, "_prepare_parse"), [g], {})
    return p


def reads(E, p, rule, kids):
    return outcome(E, lambda: E.call(E.getattr_(p, rule), [ListV(E, [One(k) for k in kids])], {}))


def is_named(v):
    return isinstance(v, StrV) and v.cls is P.NamedNode or isinstance(v, P.NamedNode)


def one_line(E, nm, v):
    regex.oblige_in(E, f"{nm}: has no line break", v, regex.lang("[^\\n\\r]*"))


def quoting(E, nm, iri, result):
    """quote_normalized_iri by its contract (C06)"""
    def quote(E, a, k):
        E.oblige(f"{nm}: the IRI itself is quoted", goal(E.equal(StrV(strings.pieces(a[0])), StrV(iri.pieces))))
        return StrV(result.pieces)
    return quote


def t_iri(ascii):
    def thunk(E):
        nm = "IRI" if ascii else "IRI with non-ASCII characters"
        if ascii:
            u = legal_iri()
            iri = nn([ident(u)])
        else:
            # by the contract of quote_normalized_iri (C06): the quoted form consists of URI characters
            u = legal_iri("quoted")
            iri = nn([ident(Units("iri", scalar))])
            E.contracts[fn(util, "quote_normalized_iri")] = quoting(E, nm, iri, StrV([ident(u)]))
        got = nt(E, iri)
        E.oblige(f"{nm}: toNT does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        E.oblige(f"{nm}: written between angle brackets" + ("" if ascii else ", quoted"), goal(E.equal(got[1], StrV(["<", ident(u), ">"]))))
        one_line(E, nm, got[1])
        for gn, mod, lkn in PARSERS:
            lk = lark(mod, lkn)
            regex.oblige_in(E, f"{nm}: an IRI of {gn}", got[1], languages(lk)["IRIREF"])
            p = transformer(E, lk)
            back = reads(E, p, "iriref", [Tok("IRIREF", strings.pieces(got[1]))])
            E.oblige(f"{nm}: {gn} accepts it", z3.BoolVal(back[0] == "ok" and is_named(back[1])))
            if back[0] == "ok" and is_named(back[1]):
                E.oblige(f"{nm}: {gn} reads " + ("it back" if ascii else "its quoted form back"), goal(E.equal(back[1], nn([ident(u)]))))
    return thunk


def t_bnode(E):
    E.thread = 0
    a, _ = node(E, "a")
    got = nt(E, a)
    E.oblige("blank node: toNT does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] != "ok":
        return
    one_line(E, "blank node", got[1])
    for gn, mod, lkn in PARSERS:
        regex.oblige_in(E, f"blank node: a label of {gn}", got[1], languages(lark(mod, lkn))["BLANK"])


def t_literal(kind):
    nm = f"literal {kind}"

    def thunk(E):
        E.thread = 0
        s = sv(z3.Const("s", STR))
        kw, parts = {}, []
        if kind == "with a language":
            l = z3.Const("lang", STR)
            E.string_langs = {l.sexpr(): TAG}
            E.assume(z3.InRe(l, regex.to_z3(TAG)))
            kw["language"] = sv(l)
            parts = ["@", Zs(l)]
        elif "datatype" in kind:
            u = legal_iri("datatype")
            c = z3.FreshConst(INT, "c")
            E.assume(regex.cond_in(URI_CS, c))
            kw["datatype"] = back_type = nn([Ch(c), ident(u)])      # not empty
            if "non-ASCII" in kind:
                d = z3.FreshConst(INT, "c")
                E.assume(scalar(d))
                kw["datatype"] = nn([Ch(d), ident(Units("written", scalar))])
                E.contracts[fn(util, "quote_normalized_iri")] = quoting(E, nm, kw["datatype"], back_type)
            parts = ["^^<", Ch(c), ident(u), ">"]
        lit = E.call(P.Literal, [s], kw)
        got = nt(E, lit)
        E.oblige(f"{nm}: toNT does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        us = strings.unit(strings.pieces(got[1]))
        ends = [i for i, x in enumerate(us) if x == '"']
        if len(ends) != 2 or ends[0] != 0:
            raise Unsupported("no quoted text")
        text, rest = us[:ends[1] + 1], us[ends[1] + 1:]
        join = lambda xs: strings.mkstr(regex.regroup(xs))
        E.oblige(f"{nm}: the quoted text is followed by just that", goal(E.equal(join(rest), strings.mkstr(parts))))
        one_line(E, nm, got[1])
        for gn, mod, lkn in PARSERS:
            lk = lark(mod, lkn)
            L = languages(lk)
            regex.oblige_in(E, f"{nm}: the text is a string of {gn}", join(text), L["STRING"])
            kids = [Tok("STRING_LITERAL_QUOTE", strings.pieces(join(text)))]
            p = transformer(E, lk)
            if kind == "with a language":
                regex.oblige_in(E, f"{nm}: a language tag of {gn}", join(rest), L["LANGTAG"])
                kids.append(Tok("LANGTAG", strings.pieces(join(rest))))
            elif "datatype" in kind:
                kids.append(back_type)     # what the IRI reads back as
            back = reads(E, p, "literal", kids)
            E.oblige(f"{nm}: {gn} accepts it", z3.BoolVal(back[0] == "ok"))
            if back[0] != "ok":
                continue
            want = lit
            if "non-ASCII" in kind:
                want = E.call(P.Literal, [s], dict(datatype=back_type))
            for f in ("value", "language", "datatype"):
                E.oblige(f"{nm}: {gn} reads the {f} back", goal(E.equal(E.getattr_(back[1], f), E.getattr_(want, f))))
            E.oblige(f"{nm}: {gn} reads an equal literal", goal(E.equal(back[1], want)))
            if "datatype" in kind:
                E.oblige(f"{nm}: {gn} reads the datatype as a node", z3.BoolVal(is_named(E.getattr_(back[1], "datatype"))))
    return thunk


# ---- statements ----------------------------------------------------------------------------------------------

def part(E, name):
    """a term, of which only what toNT gives is known"""
    t = E.fresh_const(name, U)
    txt = z3.Const("nt_" + name, STR)
    o = OpaqueV(name, object, {"$truth": True}, methods={"toNT": lambda E, a, k: sv(txt)})
    return o, txt


def t_statement(kind):
    nm = {"t": "triple", "q": "quad", "d": "quad of the default graph"}[kind]

    def thunk(E):
        xs = [part(E, n) for n in ("subject", "predicate", "object", "graph")[:4 if kind == "q" else 3]]
        vals = [x for x, _ in xs] + ([None] if kind == "d" else [])
        st = E.call(P.Triple if kind == "t" else P.Quad, vals, {})
        got = outcome(E, lambda: E.call(str, [st], {}))
        E.oblige(f"{nm}: str does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        ps = strings.pieces(got[1])
        tx = [p for p in ps if not isinstance(p, str)]
        E.oblige(f"{nm}: its terms in order", z3.BoolVal(len(tx) == len(xs) and all(isinstance(a, Zs) and a.e.eq(b) for a, (_, b) in zip(tx, xs))))
        gaps, cur = [], ""
        for p in ps:
            if isinstance(p, str):
                cur += p
            else:
                gaps.append(cur)
                cur = ""
        E.oblige(f"{nm}: terms are separated by blanks", z3.BoolVal(all(g and not g.strip(" \t") for g in gaps[1:])))
        E.oblige(f"{nm}: nothing before it", z3.BoolVal(not gaps or not gaps[0].strip(" \t")))
        E.oblige(f"{nm}: ends with a dot and its line", z3.BoolVal(cur[:1] in " \t" and cur[-1:] == "\n" and "\n" not in cur[:-1] and cur.strip(" \t\n") == "." and cur[-2:-1] != ""))
        # and back
        for gn, mod, lkn in PARSERS:
            if (gn == "N-Quads") == (kind != "t"):
                p = transformer(E, lark(mod, lkn))
                back = reads(E, p, "quad" if kind != "t" else "triple", [x for x, _ in xs])
                E.oblige(f"{nm}: {gn} accepts its parts", z3.BoolVal(back[0] == "ok"))
                if back[0] == "ok":
                    b = back[1]
                    cls = P.Triple if kind == "t" else P.Quad
                    E.oblige(f"{nm}: {gn} makes such a statement of them", z3.BoolVal(getattr(b, "cls", None) is cls))
                    for i, f in enumerate(cls._fields):
                        E.oblige(f"{nm}: {gn} reads the {f} back", z3.BoolVal(E.getattr_(b, f) is vals[i]))
    return thunk


def text_axiom(E, cls):
    """the text of a statement; different statements have different texts (only so that lines can be counted)"""
    sort = T.T3 if cls is P.Triple else T.Q4
    f, g = z3.Function("text_" + cls.__name__, sort, STR), z3.Function("stmt_" + cls.__name__, STR, sort)
    x = z3.FreshConst(sort, "x")
    E.assume(T.forall([x], g(f(x)) == x, patterns=[f(x)]))
    return sort, f


def t_serialize(fname, cls):
    """every statement's line, once, and nothing else"""
    def thunk(E):
        E.thread = 0
        sort, text = text_axiom(E, cls)
        E.contracts[cls.__str__] = lambda E, a, k: sv(text(E.term(a[0], sort)))
        has = z3.Function("has", sort, z3.BoolSort())
        x = z3.FreshConst(sort, "x")
        coll = OpaqueV("collection", P.Graph if cls is P.Triple else P.Dataset,
                       methods={"__iter__": lambda E, a, k: SeqV([Seg([x], has(x), E.from_term(x, sort))])})
        out = ListV(E, [])

        def write(E, a, k):
            E.call(E.getattr_(out, "append"), [a[0]], {})
            return IntV(z3.FreshConst(INT, "written"))
        f = OpaqueV("file", object, methods={"write": write, "writelines": lambda E, a, k: E.call(E.getattr_(out, "extend"), [a[0]], {})})
        got = outcome(E, lambda: E.call(fn(serializers, fname), [coll, f], {}))
        E.oblige(f"{fname}: does not raise", z3.BoolVal(got[0] == "ok"))
        if got[0] == "ok":
            y = z3.FreshConst(sort, "y")
            compare_collection(E, f"{fname}: writes the text of every statement", out, lambda t: ex([y], conj([has(y), t == text(y)])), STR)
    return thunk


def t_start(nm, mod, lkn, cls, rule):
    """all statements of a document, and nothing else"""
    def thunk(E):
        p = transformer(E, lark(mod, lkn))
        sort = T.T3 if cls is P.Triple else T.Q4
        for head in (True, False):
            a, b = (z3.Function(n, sort, z3.BoolSort()) for n in ("first", "later"))
            x, y = z3.FreshConst(sort, "x"), z3.FreshConst(sort, "y")
            E.assume(T.forall([x], z3.Not(conj([a(x), b(x)])), patterns=[a(x)]))
            segs = [Seg([x], a(x), E.from_term(x, sort)), One(Tok("EOL", ["\n"])), Seg([y], b(y), E.from_term(y, sort))]
            kids = ListV(E, ([] if head else [One(Tok("EOL", ["\n"]))]) + segs + [One(Tok("EOL", ["\n"]))])
            got = outcome(E, lambda: E.segments(E.call(E.getattr_(p, rule), [kids], {})))
            E.oblige(f"{nm}: a document is read", z3.BoolVal(got[0] == "ok"))
            if got[0] == "ok":
                compare_collection(E, f"{nm}: the document's statements", SeqV(got[1]), lambda t: disj([a(t), b(t)]), sort)
    return thunk


def t_parse(nm, mod, lkn, cls, streamed, given):
    """LarkParser.parse adds the statements of the text, or of each line of a stream, to the graph it returns"""
    def thunk(E):
        lk = lark(mod, lkn)
        p = transformer(E, lk)
        E.call(E.getattr_(p, "_cleanup_parse"), [], {})
        sort = T.T3 if cls is P.Triple else T.Q4
        inn = z3.Function("in_text", STR, sort, z3.BoolSort())
        x = z3.FreshConst(sort, "x")
        # a line without a dot, or shorter than the shortest statement, has none; blanks around a line do not matter
        s_ = z3.FreshConst(STR, "s")
        E.assume(T.forall([s_, x], z3.Implies(inn(s_, x), conj([z3.Contains(s_, S(".")), z3.Length(s_) >= 8])), patterns=[inn(s_, x)]))
        for strip in ("str_strip", "str_rstrip", "str_lstrip", "str_rstrip['\\n']", "str_strip['\\n']", "str_rstrip['\\r\\n']", "str_strip['\\r\\n']"):
            f = z3.Function(strip, STR, STR)
            E.assume(T.forall([s_, x], conj([inn(f(s_), x) == inn(s_, x), z3.Implies(inn(s_, x), f(s_) != S(""))]), patterns=[inn(s_, x)]))
            E.assume(T.forall([s_, x], inn(f(s_), x) == inn(s_, x), patterns=[inn(f(s_), x)]))

        def lark_parse(E, a, k):
            t = E.zstr(a[0])
            y = z3.FreshConst(sort, "y")
            return SeqV([Seg([y], inn(t, y), E.from_term(y, sort))])
        fake = OpaqueV("lark", object, {"options": OpaqueV("options", object, {"transformer": p})}, methods={"parse": lark_parse})
        lp = E.call(lbase.LarkParser, [fake], {})
        adds, made = [], []

        def graph(nm):
            def add_all(E, a, k):
                adds.append((g, E.segments(a[0])))
                return g
            g = OpaqueV(nm, object, {"$truth": True}, methods={"addAll": add_all})
            return g
        for c in (P.Graph, P.Dataset):
            def make(E, a, k, c=c):
                made.append((c, graph("new")))
                return made[-1][1]
            E.contracts[c] = make
        n = z3.FreshConst(INT, "lines")
        E.assume(n >= 0)
        line = z3.Function("line", INT, STR)
        i = z3.FreshConst(INT, "i")
        if streamed:
            src = OpaqueV("stream", object, {"$hasattr": lambda n: n in ("readline", "read"), "readline": OpaqueV("readline")},
                          methods={"__iter__": lambda E, a, k: SeqV([Seg([i], conj([i >= 0, i < n]), sv(line(i)), IdxOrd(z3.IntVal(0), n))])})
        else:
            src = sv(z3.Const("document", STR))
        g = graph("given") if given else None
        got = outcome(E, lambda: E.call(E.getattr_(lp, "parse"), [src] + ([g] if given else []), {}))
        E.oblige(f"{nm}: a document is read", z3.BoolVal(got[0] == "ok"))
        if got[0] != "ok":
            return
        E.oblige(f"{nm}: into one graph, which is returned", z3.BoolVal(bool(adds) and all(h is got[1] for h, _ in adds) and
                                                                     (got[1] is g if given else len(made) == 1 and made[0][1] is got[1])))
        if not given:
            E.oblige(f"{nm}: a new graph or dataset", z3.BoolVal(len(made) == 1))
        k = z3.FreshConst(INT, "k")
        want = (lambda t: ex([k], conj([k >= 0, k < n, inn(line(k), t)]))) if streamed else (lambda t: inn(src.z(), t))
        compare_collection(E, f"{nm}: the statements added", SeqV([s for _, ss in adds for s in ss]), want, sort, unique=False)
    return thunk


def tasks():
    out = [Task("IRIs", t_iri(True), ["NamedNode.toNT", "nt_escape", "quote_normalized_iri", "NTriplesTransformer.iriref", "decode_literal"]),
           Task("IRIs with non-ASCII characters", t_iri(False), ["NamedNode.toNT", "nt_escape", "quote_normalized_iri", "percent_encode", "NTriplesTransformer.iriref"]),
           Task("blank nodes", t_bnode, ["BlankNode.toNT"])]
    for k in ("plain", "with a language", "with a datatype", "with a non-ASCII datatype"):
        out.append(Task(f"literals {k}", t_literal(k), ["Literal.toNT", "nt_escape", "NTriplesTransformer.literal", "decode_literal"]))
    for k in "tqd":
        out.append(Task({"t": "triples", "q": "quads", "d": "quads of the default graph"}[k], t_statement(k), ["Triple.__str__"] if k == "t" else ["Quad.__str__"]))
    for gn, mod, lkn in PARSERS:
        out.append(Task(f"{gn} grammar", t_grammar(gn, mod, lkn, None), []))
        cls, rule = (P.Triple, "triples_start") if gn == "N-Triples" else (P.Quad, "quads_start")
        out.append(Task(f"{gn} documents", t_start(gn, mod, lkn, cls, rule), [f"{'NTriples' if cls is P.Triple else 'NQuads'}Transformer.{rule}"]))
        for st in (False, True):
            for gv in (False, True):
                nm = f"{gn} parse ({'stream' if st else 'string'}{', given graph' if gv else ''})"
                out.append(Task(nm, t_parse(nm, mod, lkn, cls, st, gv), ["LarkParser.parse", "LarkParser.line_by_line_parser"]))
    out.append(Task("serialize_ntriples", t_serialize("serialize_ntriples", P.Triple), ["serialize_ntriples"]))
    out.append(Task("serialize_nquads", t_serialize("serialize_nquads", P.Quad), ["serialize_nquads"]))
    return out

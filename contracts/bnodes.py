"""C11: blank node identity."""
import z3
import pymantic.primitives as P
from pymantic.parsers import base as pbase
from pymantic.parsers.lark import base as lbase, ntriples, nquads, turtle
from pymantic.parsers import jsonld
from lark import Transformer
from pyld import jsonld as pyld_jsonld
from pyvc import terms as T, regex
from pyvc.terms import U, STR, Q4, conj, disj
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.verify import *
from . import dataset as D
from . import parsing
from .parsing import BnMap, bnOf, bnLabel, Tok
from .text import fn, goal

S = z3.StringVal

# blank node labels of N-Triples 1.1
LABEL = (r"_:[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF"
         r"\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF_0-9]"
         r"([A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF"
         r"\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF_0-9\-\u00B7\u0300-\u036F\u203F-\u2040.]*"
         r"[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF"
         r"\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF_0-9\-\u00B7\u0300-\u036F\u203F-\u2040])?")


def engine():
    def mkE():
        E = D.engine()()
        parsing.install(E)
        return E
    return mkE


def start(E):
    E.thread = 0
    E.u_identity = True     # terms standing for blank nodes: one term, one node
    E.bn_ground = True


def label(E, name):
    """a blank node label as the grammars have it"""
    l = E.fresh_const(name, STR)
    E.assume(z3.PrefixOf(S("_:"), l))
    E.assume(z3.Length(l) > 2)
    return l


def is_node(v):
    return isinstance(v, UV) or isinstance(v, Obj) and v.cls is P.BlankNode


def same(E, a, b):
    return goal(E.identical(a, b))


def new_node(E, nm, v, heap, maps=None):
    """v is a blank node that did not exist before"""
    if isinstance(v, Obj):
        E.oblige(nm, z3.BoolVal(v.cls is P.BlankNode and not any(v is o for o in heap)))
    elif isinstance(v, UV):
        E.oblige(nm, FALSE)
    else:
        E.oblige(nm, FALSE)


def new_parser(E, cls):
    return E.call(cls, [], {})


# ---- labels and anonymous nodes within one parse -------------------------------------------------------------

def t_labels(cls, nm):
    def thunk(E):
        start(E)
        p = new_parser(E, cls)
        g = OpaqueV("graph")
        E.call(E.getattr_(p, "_prepare_parse"), [g], {})
        mk = E.getattr_(p, "make_blank_node")
        l1, l2 = label(E, "l1"), label(E, "l2")
        r = outcome(E, lambda: [E.call(mk, [sv(x)], {}) for x in (l1, l2, l1)])
        E.oblige(f"{nm}: a label is always accepted", z3.BoolVal(r[0] == "ok"))
        if r[0] != "ok":
            return
        a, b, a2 = r[1]
        E.oblige(f"{nm}: gives blank nodes", z3.BoolVal(all(is_node(x) for x in r[1])))
        E.oblige(f"{nm}: one label, one node", same(E, a, a2))
        E.oblige(f"{nm}: different labels, different nodes", z3.Implies(l1 != l2, z3.Not(same(E, a, b))))
        heap = list(E.heap)
        c = E.call(mk, [], {})
        new_node(E, f"{nm}: an anonymous node is new", c, heap)
        heap = list(E.heap)
        new_node(E, f"{nm}: each anonymous node is new", E.call(mk, [], {}), heap)
    return thunk


def callback(E, p):
    """how the grammar rule for a blank node label is turned into a node"""
    if isinstance(p.cls, type) and issubclass(p.cls, turtle.TurtleTransformer):
        return lambda l: E.call(E.getattr_(p, "blank_node"), [ListV(E, [One(Tok("BLANK_NODE_LABEL", [Zs(l)]))])], {})
    return lambda l: E.call(E.getattr_(p, "blank_node_label"), [ListV(E, [One(Tok("BLANK_NODE_LABEL", [Zs(l)]))])], {})


def t_rule(cls, nm):
    def thunk(E):
        start(E)
        p = new_parser(E, cls)
        E.call(E.getattr_(p, "_prepare_parse"), [OpaqueV("graph")], {})
        l1 = label(E, "l1")
        want = E.call(E.getattr_(p, "make_blank_node"), [sv(l1)], {})
        r = outcome(E, lambda: callback(E, p)(l1))
        E.oblige(f"{nm}: a blank node label gives the node of that label", same(E, r[1], want) if r[0] == "ok" and is_node(r[1]) else FALSE)
        if cls is turtle.TurtleTransformer:
            heap = list(E.heap)
            r = outcome(E, lambda: E.call(E.getattr_(p, "blank_node"), [ListV(E, [One(Tok("ANON", ["[]"]))])], {}))
            if r[0] == "ok":
                new_node(E, f"{nm}: [] gives a new node", r[1], heap)
            else:
                E.oblige(f"{nm}: [] gives a new node", FALSE)
    return thunk


# ---- parses and threads --------------------------------------------------------------------------------------

def sink(E, name, log):
    """a graph or dataset that takes what it is given, and with it runs the generator it came from"""
    def add_all(E, a, k):
        for s in E.segments(a[0]):
            log.append(s)
    return OpaqueV(name, object, methods={"addAll": add_all, "add": lambda E, a, k: log.append(a[0])})


def same_sinks():
    """the graphs a history adds to: the first parse, the failing one and the one after it add to one graph, the others to their own"""
    made = {}

    def get(pid, mk):
        k = "A" if pid in "ACD" else pid
        if k not in made:
            made[k] = mk()
        return made[k]
    return get


class Seen:
    """the nodes the parses of a history gave to labels"""

    def __init__(self):
        self.at = []

    def check(self, E, nm):
        for i, (pi, li, a) in enumerate(self.at):
            for pj, lj, b in self.at[:i]:
                if pi == pj:
                    E.oblige(f"{nm}: one label, one node", z3.Implies(li == lj, same(E, a, b)))
                    E.oblige(f"{nm}: different labels, different nodes", z3.Implies(li != lj, z3.Not(same(E, a, b))))
                else:
                    E.oblige(f"{nm}: different parses share no node", z3.Not(same(E, a, b)))


def history(E, nm, run):
    """A parse of a document, during which another thread parses one with the same parser; then a parse after it, and one that
    fails, and one after that. run(parse id, in_the_middle, fails): runs a whole parse with the labels l1, l1, l2"""
    seen = Seen()
    l1, l2 = label(E, "l1"), label(E, "l2")

    def middle():
        E.thread = 1
        run("B", seen, (l1, l2, l1), None, False)
        E.thread = 0
    run("A", seen, (l1, l1, l2), middle, False)
    run("C", seen, (l1, l2), None, True)
    run("D", seen, (l1, l2, l1), None, False)
    run("E", seen, (l2, l1), None, False)
    seen.check(E, nm)


def tokens_seen(E, p, pid, seen, labels, middle):
    """the node rules of a document: its blank node labels are turned into nodes in order"""
    f = callback(E, p)
    for i, l in enumerate(labels):
        if i == 1 and middle:
            middle()
        v = f(l)
        if not is_node(v):
            E.oblige("a blank node label gives a blank node", FALSE)
            raise Unsupported("not a node")
        seen.at.append((pid, l, v))


def t_lark(cls, streamed, given, nm):
    def thunk(E):
        start(E)
        given_sink = same_sinks()
        E.contracts.pop(P.Graph, None)
        p = new_parser(E, cls)
        cur = {}

        def lark_parse(E, a, k):
            pid, seen, labels, middle, fails = cur["now"]
            if streamed:    # one token per line
                labels = labels[cur["line"]:cur["line"] + 1]
                middle = middle if cur["line"] == 1 else None
                cur["line"] += 1
            saved = dict(cur)
            tokens_seen(E, p, pid, seen, labels, None if streamed else middle)
            if streamed and middle:
                middle()
            cur.clear()
            cur.update(saved)
            if fails:
                raise PyRaise(ExcV(ValueError, ("syntax",)))
            return SeqV([])
        lk = OpaqueV("lark", object, {"options": OpaqueV("options", object, {"transformer": p})}, methods={"parse": lark_parse})
        lp = E.call(lbase.LarkParser, [lk], {})
        sinks = []
        for c in (P.Graph, P.Dataset):
            def make(E, a, k):
                sinks.append(sink(E, f"new{len(sinks)}", []))
                return sinks[-1]
            E.contracts[c] = make

        def run(pid, seen, labels, middle, fails):
            old = dict(cur)
            cur.clear()
            cur.update(now=(pid, seen, labels, middle, fails), line=0)
            if streamed:
                src = OpaqueV("stream" + pid, object, {"$hasattr": lambda n: n in ("readline", "read"), "readline": OpaqueV("readline")},
                              methods={"__iter__": lambda E, a, k: ListV(E, [One(f"line {i}") for i in range(len(labels))])})
            else:
                src = sv(E.fresh_const("text", STR))
            g = given_sink(pid, lambda: sink(E, "given" + pid, [])) if given else None
            r = outcome(E, lambda: E.call(E.getattr_(lp, "parse"), [src] + ([g] if given else []), {}))
            if not fails:
                E.oblige(f"{nm}: a document without errors is read", z3.BoolVal(r[0] == "ok"))
                if given:
                    E.oblige(f"{nm}: returns the given graph", z3.BoolVal(r[0] == "ok" and r[1] is g))
            else:
                E.oblige(f"{nm}: errors are reported", z3.BoolVal(r[0] == "raise"))
            cur.clear()
            cur.update(old)
        history(E, nm, run)
    return thunk


def t_turtle(given):
    nm = "turtle.parse"

    def thunk(E):
        start(E)
        given_sink = same_sinks()
        cur = {}
        tree = OpaqueV("tree")

        def transform(E, a, k):
            tr = a[0]
            pid, seen, labels, middle, fails = cur["now"]
            saved = dict(cur)
            tokens_seen(E, tr, pid, seen, labels, middle)
            cur.clear()
            cur.update(saved)
            if fails:
                raise PyRaise(ExcV(ValueError, ("syntax",)))
            return SeqV([])
        E.contracts[Transformer.transform] = transform
        E.method_contracts = getattr(E, "method_contracts", {})
        old_lark = turtle.turtle_lark

        def lark_parse(E, a, k):
            return tree
        E.contracts[type(old_lark).parse] = lark_parse
        sinks = []

        def make(E, a, k):
            sinks.append(sink(E, f"new{len(sinks)}", []))
            return sinks[-1]
        E.contracts[P.Graph] = make

        def run(pid, seen, labels, middle, fails):
            old = dict(cur)
            cur.clear()
            cur.update(now=(pid, seen, labels, middle, fails))
            g = given_sink(pid, lambda: sink(E, "given" + pid, [])) if given else None
            r = outcome(E, lambda: E.call(turtle.parse, [sv(E.fresh_const("text", STR))] + ([g] if given else []), {}))
            E.oblige(f"{nm}: errors are reported, other documents are read", z3.BoolVal((r[0] == "raise") == fails))
            if given and not fails:
                E.oblige(f"{nm}: returns the given graph", z3.BoolVal(r[0] == "ok" and r[1] is g))
            cur.clear()
            cur.update(old)
        history(E, nm, run)
    return thunk


def t_jsonld(given):
    nm = "parse_json"

    def thunk(E):
        start(E)
        given_sink = same_sinks()
        p = new_parser(E, jsonld.PyLDLoader)
        cur = {}

        def quads(E, a, k):
            quad = a[-1]
            pid, seen, labels, middle, fails = cur["now"]
            s = E.getattr_(quad, "subject")
            if not is_node(s):
                E.oblige("a blank node label gives a blank node", FALSE)
                raise Unsupported("not a node")
            seen.at.append((pid, labels[cur["line"]], s))
            cur["line"] += 1
            if cur["line"] == 1 and middle:
                saved = dict(cur)
                middle()
                cur.clear()
                cur.update(saved)
            if fails:
                raise PyRaise(ExcV(ValueError, ("sink",)))

        def to_rdf(E, a, k):
            labels = cur["now"][2]

            def d(**kw):
                return DictV(E, kw)
            return DictV(E, {"@default": ListV(E, [One(d(subject=d(type="blank node", value=sv(l)), predicate=d(type="IRI", value="http://x/p"),
                                                         object=d(type="IRI", value="http://x/o"))) for l in labels])})
        E.contracts[pyld_jsonld.to_rdf] = to_rdf

        def mk(name):
            return OpaqueV(name, object, methods={"add": quads, "addAll": lambda E, a, k: [quads(E, [x.elem], {}) for x in E.segments(a[0])] and None})
        E.contracts[P.Dataset] = lambda E, a, k: mk("new")

        def run(pid, seen, labels, middle, fails):
            old = dict(cur)
            cur.clear()
            cur.update(now=(pid, seen, labels, middle, fails), line=0)
            r = outcome(E, lambda: E.call(E.getattr_(p, "parse_json"), [OpaqueV("doc" + pid)] + ([given_sink(pid, lambda: mk("given"))] if given else []), {}))
            E.oblige(f"{nm}: errors are reported, other documents are read", z3.BoolVal((r[0] == "raise") == fails))
            cur.clear()
            cur.update(old)
        history(E, nm, run)
    return thunk


# ---- identifiers ---------------------------------------------------------------------------------------------

def node(E, name):
    i = E.fresh_const(name, z3.IntSort())
    E.assume(i >= 0)
    E.string_langs = getattr(E, "string_langs", {})
    E.string_langs[z3.IntToStr(i).sexpr()] = regex.lang("[0-9]+")
    return Obj(E, P.BlankNode, {"$id": IntV(i)}, name), i


def t_ident(E):
    start(E)
    a, ia = node(E, "a")
    b, ib = node(E, "b")
    E.assume(ia != ib)      # both live
    E.oblige("two blank nodes are equal only if they are the same", z3.Not(goal(E.equal(a, b))))
    E.oblige("a blank node equals itself", goal(E.equal(a, a)))
    for what, get in (("value", lambda x: E.getattr_(x, "value")), ("str", lambda x: E.call(str, [x], {})),
                      ("toNT", lambda x: E.call(E.getattr_(x, "toNT"), [], {}))):
        va, vb = get(a), get(b)
        E.oblige(f"{what}: different for different nodes", z3.Not(goal(E.equal(va, vb))))
        if what == "value":
            va = StrV(["_:"] + list(va.pieces if isinstance(va, StrV) else [va]))
        regex.oblige_in(E, f"{what}: a legal N-Triples blank node label", va, regex.lang(LABEL))
        for lk, n in ((ntriples.nt_lark, "N-Triples"), (nquads.nq_lark, "N-Quads"), (turtle.turtle_lark, "Turtle")):
            regex.oblige_in(E, f"{what}: a blank node label of the {n} parser", va, terminal(lk, "BLANK_NODE_LABEL"))


def terminal(lk, name):
    for t in lk.terminals:
        if t.name == name:
            return regex.lang(t.pattern.to_regexp())
    raise Unsupported(f"no terminal {name}")


def tasks():
    NT, NQ, TT = ntriples.NTriplesTransformer, getattr(nquads, "NQuadsTransformer", ntriples.NTriplesTransformer), turtle.TurtleTransformer
    out = []
    for c in (pbase.BaseParser, NT, NQ, TT, jsonld.PyLDLoader):
        out.append(Task(f"make_blank_node ({c.__name__})", t_labels(c, f"{c.__name__}.make_blank_node"),
                        ["BaseParser.make_blank_node", "BaseParser.__init__", "BaseParser._prepare_parse", "RDFEnvironment.createBlankNode"]))
    for c in (NT, NQ, TT):
        out.append(Task(f"blank node rule ({c.__name__})", t_rule(c, c.__name__), [f"{c.__name__}.blank_node_label" if c is not TT else "TurtleTransformer.blank_node"]))
    for c in (NT, NQ):
        for st in (False, True):
            for gv in (False, True):
                nm = f"LarkParser.parse ({c.__name__}, {'stream' if st else 'string'}{', given graph' if gv else ''})"
                out.append(Task(nm, t_lark(c, st, gv, nm), ["LarkParser.parse", "LarkParser.line_by_line_parser", "BaseParser._prepare_parse", "BaseParser._cleanup_parse"]))
    for gv in (False, True):
        out.append(Task("turtle.parse" + (" (given graph)" if gv else ""), t_turtle(gv), ["turtle.parse", "TurtleTransformer.__init__", "TurtleTransformer.blank_node"]))
        out.append(Task("PyLDLoader.parse_json" + (" (given sink)" if gv else ""), t_jsonld(gv), ["PyLDLoader.parse_json", "PyLDLoader.process_jobj", "PyLDLoader.process_triple_fragment"]))
    out.append(Task("BlankNode identifiers", t_ident, ["BlankNode.value", "BlankNode.__str__", "BlankNode.toNT"]))
    return out

"""C09: the Turtle tree rules emit exactly the triples the document denotes.

Structural induction over the parse tree: the children of a rule are arbitrary values satisfying the contract of the rule that made
them (a term, a token, an object list, or a generator of triples ending in one node), in sequences of any length."""
import z3
from lark import Tree
from lark.lexer import Token
import pymantic.parsers.lark.turtle as turtle
import pymantic.primitives as P
from pymantic.parsers.base import BaseParser
from . import ttlgrammar
from pyvc import terms as T
from pyvc.core import Engine
from pyvc.terms import U, STR, T3, INT, BOOL, conj, disj, ex
from pyvc.values import *
from pyvc.values import TRUE, FALSE
from pyvc.verify import Task, outcome, compare_collection
from .parsing import parser, install

TT = turtle.TurtleTransformer
isTok, isTree, isGen = (z3.Function(n, U, BOOL) for n in ("isToken", "isTree", "isTripleGenerator"))
tokval = z3.Function("tokenText", U, STR)
gcnt = z3.Function("tripleCount", U, INT)
gs, gp, go = (z3.Function(n, U, INT, U) for n in ("tripleSubj", "triplePred", "tripleObj"))
glast = z3.Function("lastNode", U, U)
kids, kid = z3.Function("childCount", U, INT), z3.Function("child", U, INT, U)
madeby = z3.Function("madeBy", U, INT)      # which call of make_blank_node, in which iteration, made the node
madeat = z3.Function("madeAt", U, INT)
RDFNS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"


class Seen(HeapObj):
    """generators already consumed on this path"""

    def __init__(self, E):
        self.done = ()
        E.register(self)

    def snap(self):
        return self.done

    def restore(self, s):
        self.done = s

    def loop_diff(self, b, s):
        return False


def iri(E, local):
    return E.term(P.NamedNode(RDFNS + local), U)


def term(t):
    return disj([T.isNN(t), T.isBN(t), T.isLit(t)])


def resource(t):
    return disj([T.isNN(t), T.isBN(t)])


def triple_ok(s, p, o):
    return conj([resource(s), T.isNN(p), term(o)])


def gen_ok(c, j):
    return z3.Implies(conj([isGen(c), j >= 0, j < gcnt(c)]), triple_ok(gs(c, j), gp(c, j), go(c, j)))


def axioms(E):
    for x in vars(turtle).values():
        if isinstance(x, P.NamedNode):
            E.assume(T.isNN(E.term(x, U)))
    c, j = z3.FreshConst(U, "c"), z3.FreshConst(INT, "j")
    for a, others in ((isTok, (isTree, isGen)), (isTree, (isGen,)), (isGen, ())):
        E.assume(T.forall([c], z3.Implies(a(c), conj([z3.Not(f(c)) for f in (T.isNN, T.isBN, T.isLit) + others])), patterns=[a(c)]))
    E.assume(T.forall([c], z3.Implies(isGen(c), conj([gcnt(c) >= 0, term(glast(c))])), patterns=[glast(c)]))
    E.assume(T.forall([c], gcnt(c) >= 0, patterns=[gcnt(c)]))
    for f in (gs, gp, go):
        E.assume(T.forall([c, j], gen_ok(c, j), patterns=[f(c, j)]))
    E.assume(T.forall([c], kids(c) >= 2, patterns=[kids(c)]))
    E.assume(T.forall([c, j], z3.Implies(conj([isTree(c), j >= 0, j < kids(c)]), value(kid(c, j))), patterns=[kid(c, j)]))


def value(c):
    """the value of an object: a term, or the triples of a nested construct with its node"""
    return disj([T.isNN(c), T.isBN(c), T.isLit(c), isGen(c)])


def node(c):
    return z3.If(isGen(c), glast(c), c)


def emits(c, x):
    """triple x is among those of the nested construct c"""
    j = z3.FreshConst(INT, "j")
    return conj([isGen(c), ex([j], conj([j >= 0, j < gcnt(c), x == T.mk(T3, gs(c, j), gp(c, j), go(c, j))]))])


def gen_segs(E, c, last=True):
    j = z3.FreshConst(INT, "j")
    n = gcnt(c)
    seg = Seg([j], conj([j >= 0, j < n]), TupV(P.Triple, [UV(gs(c, j)), UV(gp(c, j)), UV(go(c, j))]), IdxOrd(z3.IntVal(0), n))
    return [seg] + ([One(UV(glast(c)))] if last else [])


def hooks(E, last=True):
    seen = Seen(E)

    def isinst(E_, v, cls):
        return {Token: isTok(v.e), Tree: isTree(v.e), P.Triple: FALSE}.get(cls)

    def attr(E_, v, name):
        if name in ("value", "type") and E_.decide(isTok(v.e)):
            return sv(tokval(v.e)) if name == "value" else None
        if name == "children" and E_.decide(isTree(v.e)):
            return idx_seq(kids(v.e), lambda q: UV(kid(v.e, q)))
        return None

    def segs(E_, v):
        if not E_.decide(isGen(v.e)):
            return None
        k = v.e.sexpr()
        if k in seen.done:
            return []
        seen.done = seen.done + (k,)
        return gen_segs(E_, v.e, last)
    E.u_isinstance_hook, E.u_getattr_hook, E.u_segments_hook = isinst, attr, segs
    axioms(E)


def c_make_blank_node(E, a, k):
    """contract of BaseParser.make_blank_node() (proved in C11): a node that did not exist before"""
    if len(a) != 1 or k:
        raise Unsupported("labelled blank node")
    t = E.fresh("bn", U)
    n = E.counter
    at = z3.IntVal(0)
    if len(E.binders) > 1:
        raise Unsupported("blank nodes made in nested loops")
    if E.binders:
        at = E.binders[0]
        if at.sort() != INT:
            raise Unsupported("blank nodes made in a loop over an unordered collection")
    E.assume(conj([T.isBN(t), t != T.NONE, madeby(t) == n, madeat(t) == at]))
    return UV(t)


def engine():
    def make():
        E = Engine()
        install(E)
        E.u_identity = True
        f = getattr(BaseParser, "make_blank_node", None)
        if f is not None:
            E.contracts[f] = c_make_blank_node
        return E
    return make


def self_(E):
    return parser(E, TT, base_iri="", prefixes=DictV(E))


def pol(E):
    """a predicate-object list of any length >= 1"""
    n = E.fresh_const("pairs", INT)
    pred, obj = z3.Function("verb", INT, U), z3.Function("objects", INT, U)
    E.assume(n >= 1)
    k = z3.FreshConst(INT, "k")
    v, o = pred(k), obj(k)
    rng = conj([k >= 0, k < n])
    E.assume(T.forall([k], z3.Implies(rng, disj([T.isNN(v), conj([isTok(v), tokval(v) == z3.StringVal("a")])])), patterns=[v]))
    E.assume(T.forall([k], z3.Implies(rng, disj([value(o), isTree(o)])), patterns=[o]))

    def at(q):
        m = z3.simplify(q % 2)
        if z3.is_int_value(m):
            return UV(pred(z3.simplify(q / 2)) if m.as_long() == 0 else obj(z3.simplify((q - 1) / 2)))
        return UV(z3.If(q % 2 == 0, pred(q / 2), obj((q - 1) / 2)))
    s = idx_seq(2 * n, at)

    def want(subj, x):
        k, m = z3.FreshConst(INT, "k"), z3.FreshConst(INT, "m")
        p = z3.If(isTok(pred(k)), iri(E, "type"), pred(k))
        ob = obj(k)
        one = lambda c: disj([emits(c, x), x == T.mk(T3, subj, p, node(c))])
        return ex([k], conj([k >= 0, k < n, disj([
            conj([z3.Not(isTree(ob)), one(ob)]),
            conj([isTree(ob), ex([m], conj([m >= 0, m < kids(ob), one(kid(ob, m))]))])])]))
    return s, want


def triple_of(v):
    return isinstance(v, TupV) and v.cls is P.Triple and len(v.items) == 3


def split(E, nm, r, last):
    """the emitted segments; with last: the node that ends them"""
    segs = E.segments(r)
    if last:
        ok = bool(segs) and isinstance(segs[-1], One) and not triple_of(segs[-1].elem)
        E.oblige(f"{nm}: the node comes last", z3.BoolVal(ok))
        if not ok:
            return segs, None
        return segs[:-1], E.term(segs[-1].elem, U)
    return segs, None


def emitted(E, nm, segs, want):
    """exactly the wanted triples, all made of RDF terms"""
    for s in segs:
        bad = not triple_of(s.elem)
        if bad:
            E.oblige(f"{nm}: only triples are emitted", FALSE if isinstance(s, One) else z3.Not(ex(s.bs, s.guard)))
            return
        e = s.elem
        if isinstance(s, Seg):
            bs = [E.fresh_const("g", b.sort()) for b in s.bs]
            g, e = s.inst(bs)
        a, b, c = (E.term(i, U) for i in e.items)
        ok = triple_ok(a, b, c)
        E.oblige(f"{nm}: every component is an RDF term", ok if isinstance(s, One) else z3.Implies(g, ok))
    compare_collection(E, nm, SeqV(segs), want, T3, unique=False)


def must(E, nm, r):
    E.oblige(f"{nm}: no exception", z3.BoolVal(r[0] == "ok"))
    return r[0] == "ok"


def node_goal(E, nm, t, n0):
    """t was made by make_blank_node during this call"""
    E.oblige(nm, conj([T.isBN(t), madeby(t) > n0]))


def subject_of(E, kind):
    c = E.fresh_const("subject", U)
    E.assume(isGen(c) if kind == "collection" else resource(c))
    if kind == "collection":
        E.assume(resource(glast(c)))
    return c


def t_unpack(kind):
    def t(E):
        hooks(E)
        subj = subject_of(E, kind)
        s, want = pol(E)
        r = outcome(E, lambda: SeqV(E.segments(E.call(turtle.unpack_predicate_object_list, [UV(subj), s], {}))))
        if must(E, "predicate-object list", r):
            emitted(E, "predicate-object list", E.segments(r[1]), lambda x: disj([emits(subj, x), want(node(subj), x)]))
    return t


def t_pol(E):
    hooks(E)
    s, want = pol(E)
    subj = subject_of(E, "node")
    o = self_(E)
    r = outcome(E, lambda: E.call(E.getattr_(o, "predicate_object_list"), [s], {}))
    if must(E, "predicate_object_list", r):
        r = outcome(E, lambda: SeqV(E.segments(E.call(E.getattr_(o, "triples"), [ListV(E, [One(UV(subj)), One(r[1])])], {}))))
        if must(E, "triples", r):
            emitted(E, "predicate_object_list", E.segments(r[1]), lambda x: want(subj, x))


def t_triples(kind):
    def t(E):
        hooks(E)
        subj = subject_of(E, kind)
        s, want = pol(E)
        o = self_(E)
        r = outcome(E, lambda: SeqV(E.segments(E.call(E.getattr_(o, "triples"), [ListV(E, [One(UV(subj)), One(s)])], {}))))
        if must(E, "triples", r):
            emitted(E, "triples", E.segments(r[1]), lambda x: disj([emits(subj, x), want(node(subj), x)]))
    return t


def t_triples_alone(E):
    hooks(E)
    c = E.fresh_const("bracket", U)
    E.assume(isGen(c))
    o = self_(E)
    r = outcome(E, lambda: SeqV(E.segments(E.call(E.getattr_(o, "triples"), [ListV(E, [One(UV(c))])], {}))))
    if must(E, "triples of a lone bracket", r):
        emitted(E, "triples of a lone bracket", E.segments(r[1]), lambda x: emits(c, x))


def t_bracket(E):
    hooks(E)
    s, want = pol(E)
    o = self_(E)
    n0 = E.counter
    r = outcome(E, lambda: SeqV(E.segments(E.call(E.getattr_(o, "blank_node_property_list"), [ListV(E, [One(s)])], {}))))
    if not must(E, "bracket", r):
        return
    segs, root = split(E, "bracket", r[1], True)
    if root is not None:
        node_goal(E, "bracket: its node is new", root, n0)
        emitted(E, "bracket", segs, lambda x: want(root, x))


def t_collection(E):
    hooks(E)
    n, at = E.fresh_const("items", INT), z3.Function("item", INT, U)
    E.assume(n >= 0)
    k = z3.FreshConst(INT, "k")
    E.assume(T.forall([k], z3.Implies(conj([k >= 0, k < n]), value(at(k))), patterns=[at(k)]))
    s = idx_seq(n, lambda q: UV(at(q)))
    o = self_(E)
    n0 = E.counter
    r = outcome(E, lambda: SeqV(E.segments(E.call(E.getattr_(o, "collection"), [s], {}))))
    if not must(E, "collection", r):
        return
    segs, root = split(E, "collection", r[1], True)
    if root is None:
        return
    FIRST, REST, NIL = iri(E, "first"), iri(E, "rest"), iri(E, "nil")
    # the cell of item q is the subject of its first triple
    firsts = [x for x in segs if isinstance(x, Seg) and triple_of(x.elem) and len(x.bs) == 1 and x.bs[0].sort() == INT
              and z3.is_true(z3.simplify(E.term(x.elem.items[1], U) == FIRST))]
    if not firsts:
        E.oblige("collection: one first triple per item", n == 0)
        return

    def cell(q):
        r = None
        for f in firsts:
            g, e = f.inst([q])
            t = E.term(e.items[0], U)
            r = t if r is None else z3.If(g, t, r)
        return r
    i, j = E.fresh_const("i", INT), E.fresh_const("j", INT)
    inr = lambda q: conj([q >= 0, q < n])
    E.oblige("collection: one first triple per item", inr(i) == disj([f.inst([i])[0] for f in firsts]))
    E.oblige("collection: every cell is new", z3.Implies(inr(i), conj([T.isBN(cell(i)), madeby(cell(i)) > n0])))
    E.oblige("collection: one cell per item", z3.Implies(conj([inr(i), inr(j), cell(i) == cell(j)]), i == j))
    E.oblige("collection: its node is the first cell, or nil", root == z3.If(n > 0, cell(z3.IntVal(0)), NIL))

    def want(x):
        k = z3.FreshConst(INT, "k")
        return ex([k], conj([inr(k), disj([emits(at(k), x), x == T.mk(T3, cell(k), FIRST, node(at(k))),
                                           x == T.mk(T3, cell(k), REST, z3.If(k + 1 < n, cell(k + 1), NIL))])]))
    emitted(E, "collection", segs, want)


def t_doc(E):
    hooks(E, last=False)
    n, at = E.fresh_const("statements", INT), z3.Function("statement", INT, U)
    E.assume(n >= 0)
    k = z3.FreshConst(INT, "k")
    E.assume(T.forall([k], z3.Implies(conj([k >= 0, k < n]), disj([isTree(at(k)), isGen(at(k))])), patterns=[at(k)]))
    s = idx_seq(n, lambda q: UV(at(q)))
    o = self_(E)
    r = outcome(E, lambda: SeqV(E.segments(E.call(E.getattr_(o, "turtle_doc"), [s], {}))))
    if must(E, "document", r):
        k = z3.FreshConst(INT, "k")
        emitted(E, "document", E.segments(r[1]), lambda x: ex([k], conj([k >= 0, k < n, emits(at(k), x)])))


def tasks():
    f = "TurtleTransformer."
    u = "unpack_predicate_object_list"
    return [Task("rules of the Turtle grammar", ttlgrammar.t_rules(ttlgrammar.STRUCTURE), ["turtle.grammar"]),
            Task("unpack_predicate_object_list (node)", t_unpack("node"), [u, "grouper"]),
            Task("unpack_predicate_object_list (collection)", t_unpack("collection"), [u, "grouper"]),
            Task("predicate_object_list", t_pol, [f + "predicate_object_list", f + "triples", u]),
            Task("triples (node)", t_triples("node"), [f + "triples", u]),
            Task("triples (collection)", t_triples("collection"), [f + "triples", u]),
            Task("triples (lone bracket)", t_triples_alone, [f + "triples"]),
            Task("blank_node_property_list", t_bracket, [f + "blank_node_property_list", u]),
            Task("collection", t_collection, [f + "collection", "BaseParser.make_triple", "RDFEnvironment.createTriple"]),
            Task("turtle_doc", t_doc, [f + "turtle_doc"])]

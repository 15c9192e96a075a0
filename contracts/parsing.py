"""Shared by the parser properties: parser objects, per-parse state, blank node maps."""
import collections
import threading
import z3
from lark import Transformer
from lark.lexer import Token
import pymantic.primitives as P
from pyvc import terms as T
from pyvc.terms import U, STR, conj
from pyvc.values import *
from pyvc.values import TRUE, FALSE

bnOf = z3.Function("bnOf", z3.IntSort(), STR, U)     # node number k's map gives a label
bnMap = z3.Function("bnMap", U, z3.IntSort())
bnLabel = z3.Function("bnLabel", U, STR)


def bn_axioms(E):
    k, s = z3.FreshConst(z3.IntSort(), "k"), z3.FreshConst(STR, "s")
    t = bnOf(k, s)
    E.assume(T.forall([k, s], conj([T.isBN(t), t != T.NONE, bnMap(t) == k, bnLabel(t) == s]), patterns=[t]))


class BnMap(OpaqueV):
    """defaultdict(createBlankNode) of one parse: equal labels give one node, different labels and different maps different nodes"""
    n = 0

    def __init__(self, E, auto=True, fresh=False):
        self.fresh = fresh
        BnMap.n += 1
        self.auto, self.present, self.absent = auto, [], []
        self.k = BnMap.n
        super().__init__(f"bnodes{self.k}", collections.defaultdict, {"$truth": None}, methods={
            "__getitem__": lambda E, a, k: self.py_getitem(E, a[0]), "get": self.get, "setdefault": self.setdefault})
        self.attrs.pop("$truth")

    def py_getitem(self, E, label):
        if not self.auto and not E.decide(self.py_contains(E, label)):
            raise PyRaise(ExcV(KeyError, (label,)))
        return self.node(E, label)

    def py_contains(self, E, label):
        """has the label been given a node before; unknown unless it was in this execution"""
        l = E.zstr(label)
        if any(l.eq(x) for x in self.present):
            return True
        had = False
        if not self.fresh or getattr(E, "looped", False):
            had = E.decide(z3.FreshConst(z3.BoolSort(), "had"))
        if not had:
            for x in self.present:
                if E.decide(l == x):
                    return True
            self.absent.append(l)
            return False
        self.present.append(l)
        return True

    def py_setitem(self, E, label, v):
        """a node made for a label that had none is the node of that label from now on"""
        l = E.zstr(label)
        if not any(l.eq(x) for x in self.absent) or any(l.eq(x) for x in self.present):
            raise Unsupported("replacing the node of a label")
        if not (isinstance(v, Obj) and v.cls is P.BlankNode and "$bn" not in v.attrs):
            raise Unsupported("a label is given another value than a new blank node")
        v.attrs["$bn"] = self.node(E, label).e

    def get(self, E, a, k):
        if E.decide(self.py_contains(E, a[0])):
            return self.node(E, a[0])
        return a[1] if len(a) > 1 else k.get("default")

    def setdefault(self, E, a, k):
        if not E.decide(self.py_contains(E, a[0])):
            self.py_setitem(E, a[0], a[1] if len(a) > 1 else None)
        return self.node(E, a[0])

    def node(self, E, label):
        t = bnOf(z3.IntVal(self.k), E.zstr(label))
        if not any(E.zstr(label).eq(x) for x in self.present):
            self.present.append(E.zstr(label))
        if getattr(E, "bn_ground", False):
            E.assume(conj([T.isBN(t), t != T.NONE, bnMap(t) == self.k, bnLabel(t) == E.zstr(label)]))
        return UV(t)


def c_defaultdict(E, a, k):
    from pyvc import model
    if len(a) == 1 and not k and not isinstance(a[0], type):
        one, two = E.call(a[0], [], {}), E.call(a[0], [], {})
        if isinstance(one, Obj) and isinstance(two, Obj) and one is not two and one.cls is P.BlankNode and two.cls is P.BlankNode:
            return BnMap(E, fresh=True)
        raise Unsupported("defaultdict of other values")
    if len(a) == 1 and a[0] is P.BlankNode:
        return BnMap(E, fresh=True)
    return model.defaultdict_(E, a, k)


class LocalObj(Obj):
    """threading.local: every thread has its own attributes"""
    described = {"bnodes", "graph"}      # anything else kept there since an earlier parse is unknown

    def __init__(self, E):
        self.E, self.store = E, {}
        super().__init__(E, threading.local, {}, "call state")

    def vc_setattr(self, E, name, v):
        if name == "bnodes" and isinstance(v, DictV) and v.cls is dict and not v.d:
            v = BnMap(E, auto=False, fresh=True)      # a plain dictionary filled by the code
        self.attrs[name] = v

    @property
    def attrs(self):
        return self.store.setdefault(getattr(self.E, "thread", 0), {})

    @attrs.setter
    def attrs(self, d):
        self.store[getattr(self.E, "thread", 0)] = d

    def snap(self):
        return {t: dict(d) for t, d in self.store.items()}

    def restore(self, s):
        self.store = {t: dict(d) for t, d in s.items()}

    def loop_diff(self, b, s):
        return set(b) != set(s) or any(set(b[t]) != set(s[t]) or any(b[t][k] is not s[t][k] for k in b[t]) for t in b)


class Tok(StrV):
    """a token of the lexer: a string with a type"""

    def __init__(self, type_, pieces, E=None):
        super().__init__(pieces, Token)
        self.attrs = {"type": type_, "value": StrV(pieces)}

    def sub(self, p):
        return Tok(self.attrs["type"], StrV.sub(self, p).pieces)


def install(E):
    E.contracts[collections.defaultdict] = c_defaultdict
    E.contracts[threading.local] = lambda E, a, k: LocalObj(E)
    E.contracts[Transformer.__init__] = lambda E, a, k: None


def parser(E, cls, state=True, **attrs):
    """a parser object of a class, with the state of a running parse or none"""
    env = Obj(E, P.RDFEnvironment, {}, "env")
    st = LocalObj(E)
    o = Obj(E, cls, dict(env=env, _call_state=st, **attrs), "parser")
    if state:
        E.call(E.getattr_(o, "_prepare_parse"), [OpaqueV("graph")], {})
        m = st.attrs.get("bnodes")
        st.attrs.clear()
        if not isinstance(m, BnMap):
            raise Unsupported("the map of blank nodes")
        m.fresh = False
        st.attrs["bnodes"] = m
    return o

"""C04: escaping for N-Triples and decoding."""
import z3
from pymantic import serializers, util
from pyvc import terms as T, regex
from pyvc.core import Engine
from pyvc.terms import STR, conj
from pyvc.values import *
from pyvc.verify import *

# what may stand between the quotes of an escaped string: printable ASCII, no unescaped quote or backslash
ESCAPED = r"([ !#-\[\]-~]|\\[ -~])*"


def engine():
    return Engine


def goal(r):
    return z3.BoolVal(r) if isinstance(r, bool) else r.e if isinstance(r, BoolV) else r


def fn(mod, name):
    f = getattr(mod, name, None)
    if f is None:
        raise Unsupported(f"no function {name}")
    return f


def t_escape(E):
    s = sv(z3.Const("s", STR))
    got = outcome(E, lambda: E.call(fn(serializers, "nt_escape"), [s], {}))
    E.oblige("nt_escape: does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] != "ok":
        return
    regex.oblige_in(E, "nt_escape: printable ASCII without unescaped quotes, line breaks or backslashes", got[1], regex.lang(ESCAPED))


def t_decode(E):
    s = sv(z3.Const("s", STR))
    e = E.call(fn(serializers, "nt_escape"), [s], {})
    got = outcome(E, lambda: E.call(fn(util, "decode_literal"), [e], {}))
    E.oblige("decode_literal of an escaped string: does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] == "ok":
        E.oblige("decode_literal(nt_escape(s)) == s", goal(E.equal(got[1], s)))


def tasks():
    return [Task("nt_escape", t_escape, ["nt_escape"]),
            Task("decode_literal after nt_escape", t_decode, ["nt_escape", "decode_literal", "process_escape"])]

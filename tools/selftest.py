#!/usr/bin/env python3-vt
"""Cross-checks of the verifier against CPython (development tool, not part of any check).

  selftest.py [seed]

1. regular languages: membership, inclusion and difference of pyvc.regex against re.fullmatch on random patterns and strings;
2. the executor: small functions and repository functions on concrete arguments give what CPython gives;
3. the law of bytes.decode('utf-8', 'surrogateescape') that C06 assumes, on all byte strings of length <= 2, on a dense choice of
   longer ones and on random ones."""
import itertools, os, random, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_REPO", "/repo") + "/src"
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, SRC]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.setrecursionlimit(8000)
from pyvc import regex                                  # noqa: E402
from pyvc.core import Engine                            # noqa: E402
from pyvc.values import Unsupported, PyRaise            # noqa: E402

rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)


def pattern(d=3):
    k = rnd.randrange(9 if d else 3)
    if k < 2:
        return rnd.choice("abc")
    if k == 2:
        return rnd.choice(["[ab]", "[^a]", "[a-c]", "[^b-c]", "."])
    if k in (3, 4):
        return pattern(d - 1) + pattern(d - 1)
    if k == 5:
        return f"(?:{pattern(d - 1)}|{pattern(d - 1)})"
    return f"(?:{pattern(d - 1)})" + rnd.choice(["*", "+", "?", "{2}", "{1,2}"])


def member(r, s):
    for c in s:
        r = regex.deriv(r, ord(c))
    return regex.nullable(r)


def languages(n=1500):
    bad = 0
    words = ["".join(w) for k in range(5) for w in itertools.product("abcd", repeat=k)]
    for _ in range(n):
        p, q = pattern(), pattern()
        a, b = regex.lang(p), regex.lang(q)
        P, Q = re.compile(p), re.compile(q)
        for w in rnd.sample(words, 40):
            if member(a, w) != bool(P.fullmatch(w)):
                bad += 1
                print("membership", p, repr(w))
        d = regex.difference(a, b)
        if d is None or d is False:
            if any(P.fullmatch(w) and not Q.fullmatch(w) for w in words):
                bad += 1
                print("inclusion", p, q)
        elif isinstance(d, str) and not (P.fullmatch(d) and not Q.fullmatch(d)):
            bad += 1
            print("difference", p, q, repr(d))
    return n, bad


SNIPPETS = '''
def loops(n):
    out = []
    for i in range(n):
        if i % 2: continue
        if i > 6: break
        out.append(i * i)
    else:
        out.append("end")
    return tuple(out)
def whiles(n):
    a, b = 0, 1
    while n:
        a, b = b, a + b
        n -= 1
    return a
def gen(n):
    def g():
        for i in range(n):
            yield i
        yield from ("x", "y")
    return tuple(g())
def tryit(x):
    log = []
    try:
        try:
            if x == 0: raise ValueError("v")
            if x == 1: raise KeyError("k")
            log.append("body")
        except ValueError as e:
            log.append("ve")
        else:
            log.append("else")
        finally:
            log.append("fin")
    except KeyError:
        log.append("ke")
    return tuple(log)
def finret(x):
    try:
        return "a"
    finally:
        if x: return "b"
def dicts(x):
    d = {"a": 1, "b": 2}
    d.setdefault("c", []).append(x)
    d["a"] = d.get("z", 5)
    e = {k: v for k, v in d.items() if k != "b"}
    return tuple(e), tuple(e.values()), len(d), "b" in e
def kw(a, b=2, *c, d=4, **e):
    return a, b, c, d, tuple(e.items())
def callkw(x):
    return kw(x), kw(x, 3, 4, 5), kw(x, d=1, z=x), kw(*(1, 2, 3), **{"q": x})
def closures(x):
    fs = []
    for i in range(3):
        def f(j=i): return i, j
        fs.append(f)
    return tuple(f() for f in fs)
def strs(s):
    return (s.partition("-"), s.rpartition("-"), s.replace("a", "bb"), s.startswith(("a", "x")), s[1:-1], s[::2] if 0 else s[:3],
            s.split("-"), "-".join(reversed(s.split("-"))), s.strip("a"), s.endswith("-"), s.upper() if 0 else s)
def fmt(s):
    return f"<{s}>" + "%s|%02X|%r" % (s, 10, 3), "{}-{}".format(s, 1) if 0 else s
def cmp(x):
    return 0 < x < 5, x in (1, 2), not x, x and 7, x or 8, (1 if x else 2), x is None
def unpack(t):
    a, (b, *c), d = t
    return a, b, tuple(c), d
class A:
    k = 1
    def __init__(self, v): self.v = v
    @property
    def p(self): return self.v + self.k
    @classmethod
    def make(cls, v): return cls(v)
    @staticmethod
    def st(v): return v * 2
    def __eq__(self, o): return isinstance(o, A) and self.v == o.v
    def __hash__(self): return hash(self.v)
class B(A):
    k = 10
    def __init__(self, v): super().__init__(v + 1)
def classes(v):
    a, b = A.make(v), B.make(v)
    return a.p, b.p, A.st(v), a == A(v), a != b, isinstance(b, A), isinstance(a, B), type(b).__name__
def sets(v):
    s = {1, 2}; s.add(v); t = frozenset((2, 3))
    return len(s), tuple(sorted(s & t)), tuple(sorted(s | t)), tuple(sorted(s - t)), v in s
def nested(x):
    return [(i, j) for i in range(3) for j in range(i) if (i + j) % 2 == x]
def anyall(x):
    return any(i > x for i in range(3)), all(i > x for i in range(3)), sum(i for i in range(x)), max(1, x), min([3, x])
def sorting(x):
    return sorted([(2, "b"), (1, "z"), (2, "a")], key=lambda p: -p[0]), list(enumerate("ab", x)), list(zip("ab", (1, 2)))
def listops(x):
    l = [3, 1]
    l.append(x); l.extend((7, 8)); l += [9]; l.insert(0, 5)
    y = l.pop(); l.remove(1); l[0] = 6
    del l[1]
    return tuple(l), y, l.index(7), l[-1], l[1:3], len(l), list(reversed(l))
def dictops(x):
    d = dict(a=1, **{"b": x}); d.update({"c": 3}, e=4); v = d.pop("a", None); w = d.pop("zz", 0)
    del d["c"]
    from collections import defaultdict, OrderedDict
    dd = defaultdict(list); dd[x].append(1); dd[x].append(2)
    o = OrderedDict(); o["q"] = 1
    return list(d.items()), v, w, list(dd.items()), list(o), "b" in d, d.get("nope"), {**d, "n": 1}["n"]
def gens(x):
    g = (i + x for i in range(4))
    a = next(g); b = next(g, None)
    return a, b, list(g), next(iter(()), "d"), list(map(lambda q, r: q + r, (1, 2), (3, 4))), list(filter(None, (0, 1, 2)))
def starred(x):
    a, *b = [x, 1, 2]
    *c, d = (1, x)
    return a, b, c, d, [*b, *c], (lambda *q, **k: (q, k))(1, z=2)[0]
def walrus(x):
    if (n := x + 1) > 2:
        return n
    return -n
def condtry(x):
    d = {"a": 1}
    try:
        return d[x]
    except (KeyError, IndexError) as e:
        return type(e).__name__, e.args
def withelse(x):
    for i in range(x):
        if i == 3: break
    else:
        return "exhausted"
    return i
def multi(s):
    a = b = s
    a += "!"
    return a, b, a.find("!"), s.count("a"), s.isdigit(), s.lower(), s.join(("x", "y")), s * 2, s.lstrip("a"), s.rstrip("-"), s in "abc", "a" in s
def chars(s):
    return [ord(c) for c in s], "".join(chr(ord(c) + 1) for c in s), s[-1:], s[1:], [c for c in reversed(s)], s == s[::1], s < "b"
def early(x):
    for i in (1, 2, 3):
        if i == x: return "found"
    return "none"
'''
CALLS = [("loops", 4), ("loops", 20), ("whiles", 7), ("gen", 3), ("tryit", 0), ("tryit", 1), ("tryit", 2), ("finret", 0), ("finret", 1),
         ("dicts", 1), ("callkw", 9), ("closures", 1), ("strs", "a-bca-d-"), ("strs", ""), ("strs", "abc"), ("fmt", "q"), ("cmp", 0), ("cmp", 3), ("cmp", 9),
         ("unpack", (1, (2, 3, 4), 5)), ("classes", 3), ("sets", 5), ("sets", 1), ("nested", 1), ("anyall", 1), ("anyall", 5), ("sorting", 2), ("listops", 2), ("dictops", "k"), ("gens", 3), ("starred", 4), ("walrus", 1), ("walrus", 5), ("condtry", "a"),
         ("condtry", "b"), ("withelse", 2), ("withelse", 6), ("multi", "aba-"), ("multi", ""), ("chars", "abc"), ("early", 2), ("early", 9)]


def plain(E, v):
    """an engine value without symbols as a Python value"""
    if isinstance(v, (str, int, bool, type(None))):
        return v
    if isinstance(v, tuple):
        return tuple(plain(E, x) for x in v)
    import z3
    if type(v).__name__ in ("IntV", "BoolV"):
        e = z3.simplify(v.e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        raise Unsupported("not concrete")
    segs = E.segments(v)
    if all(type(s).__name__ == "One" for s in segs):
        return [plain(E, s.elem) for s in segs]
    raise Unsupported("not concrete: " + type(v).__name__)


def norm(v):
    return tuple(norm(x) for x in v) if isinstance(v, (list, tuple)) else v


def executor():
    import importlib.util, tempfile, shutil
    n = bad = skipped = 0
    d = tempfile.mkdtemp(prefix="selftest-")
    try:
        f = os.path.join(d, "selftest_src.py")
        open(f, "w").write(SNIPPETS)
        spec = importlib.util.spec_from_file_location("selftest_src", f)
        m = importlib.util.module_from_spec(spec)
        sys.modules["selftest_src"] = m
        spec.loader.exec_module(m)
        from pyvc import core
        old, core.REPO = core.REPO, d
        from pymantic import serializers, util, primitives
        calls = [(getattr(m, g), (a,)) for g, a in CALLS]

        def text():
            return "".join(rnd.choice("ab\\\"'\n\r\t\x00\x7f\x80\u00e9\uffff\U00010000%4C3a9-:/#u") for _ in range(rnd.randrange(7)))
        for _ in range(60):
            s = text()
            calls += [(serializers.nt_escape, (s,)), (util.decode_literal, (serializers.nt_escape(s),)), (util.normalize_iri, (s,)),
                      (serializers.turtle_string_escape, (s,)), (serializers.escape_prefix_local, (s,)), (primitives.lang_match, (s, text()))]
        for fn, args in calls:
            n += 1
            try:
                want = ("ok", norm(fn(*args)))
            except Exception as e:
                want = ("raise", type(e).__name__)
            core.REPO = d if fn.__module__ == "selftest_src" else old
            E = Engine()
            E.reset()
            got = []

            def go():
                try:
                    got.append(("ok", norm(plain(E, E.call(fn, list(args), {})))))
                except PyRaise as p:
                    got.append(("raise", p.exc.cls.__name__))
            try:
                E.explore(go)
            except Unsupported as u:
                skipped += 1
                print("skipped", fn.__name__, args, u)
                continue
            if len(got) != 1 or got[0] != want:
                bad += 1
                print("differs", fn.__name__, args, "engine", got, "python", want)
        core.REPO = old
    finally:
        shutil.rmtree(d)
    return n, bad, skipped


def decoder():
    n = bad = 0
    dense = [0x00, 0x25, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF]
    cases = itertools.chain((bytes(w) for k in (0, 1, 2) for w in itertools.product(range(256), repeat=k)),
                            (bytes(w) for k in (3, 4) for w in itertools.product(dense, repeat=k)),
                            (bytes(rnd.choice(dense) for _ in range(rnd.randrange(5, 12))) for _ in range(20000)))
    for b in cases:
        n += 1
        s = b.decode("utf-8", "surrogateescape")
        ok = s.encode("utf-8", "surrogateescape") == b and all(not 0xD800 <= ord(c) <= 0xDFFF or 0xDC80 <= ord(c) <= 0xDCFF for c in s)
        for i in range(len(s)):
            for j in range(i + 1, len(s) + 1):
                f = s[i:j]
                ok = ok and f.encode("utf-8", "surrogateescape").decode("utf-8", "surrogateescape") == f
        if not ok:
            bad += 1
            print("decoder", b)
    return n, bad


if __name__ == "__main__":
    a, b, c = languages(), executor(), decoder()
    print("languages: %d pairs, %d wrong" % a)
    print("executor: %d calls, %d wrong, %d outside the subset" % b)
    print("decoder law: %d byte strings, %d counterexamples" % c)
    sys.exit(1 if a[1] or b[1] or c[1] else 0)

"""C04: escaping for N-Triples and decoding."""
from .lib import *


def check(s, esc, dec):
    e = esc(s)
    expect(isinstance(e, str) and all(" " <= c <= "~" for c in e), "escaped form is printable ASCII", s, e)
    i = 0
    while i < len(e):
        if e[i] == "\\":
            expect(i + 1 < len(e), "escaped form ends inside an escape", s, e)
            i += 2
            continue
        expect(e[i] != '"', "escaped form has an unescaped quote", s, e)
        i += 1
    d = dec(e)
    expect(d == s, "decoding the escaped form gives back the string", s, e, d)
    return e


def execute(case):
    from pymantic.serializers import nt_escape
    from pymantic.util import decode_literal
    if case[0] == "range":
        seen = set()
        for i in range(case[1], case[2]):
            e = check(chr(i), nt_escape, decode_literal)
            expect(e not in seen, "two strings with the same escaped form", chr(i), e)
            seen.add(e)
        return
    if case[0] == "pairs":
        c = chr(case[1])
        for d in SPECIAL + "uU0123456789abcdefABCDEF\ud800\udfff":
            check(c + d, nt_escape, decode_literal)
            check(d + c, nt_escape, decode_literal)
        return
    check(case[1], nt_escape, decode_literal)


def fixed():
    yield ("s", "")
    for i in list(range(0, 0x180)):
        yield ("pairs", i)
    for a in range(0, 0x110000, 0x2000):
        yield ("range", a, a + 0x2000)
    for s in ("\\u0041", "\\", "\\\\", "\\\"", "\\n", "a\\tb", "\\U0001F600", "\U0001F600\\u", "\ud83d\ude00", "\x00\x01", "\x7f\x80"):
        yield ("s", s)
    for n in big_sizes(1000):
        yield ("s", "a" * n + "\n\u00e9")
        yield ("s", "\n\\\"\u00e9\U0001F600"[:5] * n + "x")


def cases(r):
    while True:
        yield ("s", rand_str(r, 12, surrogates=True))


def shrink(case):
    if case[0] == "range":
        a, b = case[1:]
        if b - a > 1:
            m = (a + b) // 2
            yield ("range", a, m)
            yield ("range", m, b)
    elif case[0] == "s":
        s = case[1]
        for k in (len(s) // 2, len(s) // 4):
            if k > 4:
                yield ("s", s[k:])
                yield ("s", s[:-k])
        for i in range(len(s)):
            yield ("s", s[:i] + s[i + 1:])


def from_hints(hints):
    for h in hints:
        for v in (h.values() if isinstance(h, dict) else [h]):
            if isinstance(v, str):
                yield ("s", v)
            if isinstance(v, int) and 0 <= v < 0x110000:
                yield ("s", chr(v))

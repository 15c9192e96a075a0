"""C06: IRI quoting and normalization."""
import re
from urllib.parse import unquote_to_bytes

from .lib import *

RESERVED = "%:/?#[]@!$&'()*+,;="
URI = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~" + RESERVED)
ESC = re.compile("%([0-9A-Fa-f]{2})")
KEEP = {ord(c) for c in RESERVED} | set(range(0x20)) | {0x20}


def escapes(s):
    """how often each kept character occurs as an escape"""
    out = {}
    for m in ESC.finditer(s):
        b = int(m[1], 16)
        if b in KEEP:
            out[b] = out.get(b, 0) + 1
    return out


def raws(s):
    """how often each kept character occurs raw (outside escapes)"""
    t = ESC.sub("", s)
    out = {}
    for c in t:
        if ord(c) in KEEP:
            out[ord(c)] = out.get(ord(c), 0) + 1
    return out


def execute(case):
    from pymantic.util import normalize_iri, quote_normalized_iri
    s = case[0]
    q = quote_normalized_iri(s)
    expect(isinstance(q, str) and set(q) <= URI, "quoting gives only URI characters", s, q)
    expect(quote_normalized_iri(q) == q, "quoting twice equals quoting once", s, q, quote_normalized_iri(q))
    if set(s) <= URI:
        expect(q == s, "a legal ASCII URI is left unchanged", s, q)
    # quoting only percent-encodes: every legal character stays, every other becomes its UTF-8 escapes
    want = "".join(c if c in URI else "".join("%%%02X" % b for b in c.encode("utf-8")) for c in s)
    expect(q == want, f"quoting {s!r} should give {want!r}", q)
    try:
        n = normalize_iri(s)
    except Exception as e:  # noqa
        raise Fail(f"normalizing {s!r} fails: {type(e).__name__}: {e}")
    expect(isinstance(n, str), "normalizing gives a string", n)
    clean = "%" not in ESC.sub("", s)
    if not clean:
        return
    expect(escapes(n) == escapes(s), "escapes of reserved characters, controls and spaces stay escapes", s, n)
    expect(raws(n) == raws(s), "no raw reserved character, control or space appears or vanishes", s, n)
    expect(unquote_to_bytes(n) == unquote_to_bytes(s), "normalizing keeps the octets", s, n)
    n2 = normalize_iri(n)
    expect(n2 == n, "normalizing twice equals normalizing once", s, n, n2)
    if not any(ord(c) <= 0x20 for c in s):
        back = normalize_iri(quote_normalized_iri(n))
        expect(back == n, "normalize(quote(normalized)) is the normalized form", s, n, back)


def pct(b):
    return "".join("%%%02X" % x for x in b)


def fixed():
    for i in range(256):
        yield ("http://a/%%%02X" % i,)
        yield ("x%%%02xy" % i,)
    for i in list(range(0, 0x300)) + [0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]:
        c = chr(i)
        yield (c,)
        yield ("a" + c + "b",)
        yield (pct(c.encode()),)
        yield (pct(c.encode()).lower() + "z",)
        yield ("%C3" + pct(c.encode()) + "%2F",)
        yield (pct(c.encode())[:-3] + "x",)
    for s in ("%", "%%", "%zz", "%2", "%C3%", "%E2%82", "%F0%9F%98%80", "%ED%A0%80", "%C0%AF", "%FF%FE", "%F4%90%80%80", "%2f%2F", "%25%32%35", "%2525", "%E9", "%41%C3%A9%2F%20%0A%C3", "http://[::1]/?a=b&c=d#e", ""):
        yield (s,)
    for n in big_sizes(3000) + [1025]:
        yield ("%C3%A9" * n,)
        yield ("%e2%82%ac" * (n // 2) + "%2F" * (n // 2),)
        yield ("\u00e9" * n,)
        yield ("a%FF" * n + "%",)
        yield ("x" * n + "\u00e9%41",)


def cases(r):
    while True:
        out = []
        for _ in range(r.randrange(0, 8)):
            k = r.random()
            if k < 0.3:
                out.append(rand_char(r))
            elif k < 0.5:
                out.append(pct(rand_char(r).encode("utf-8")))
            elif k < 0.65:
                out.append("%%%02X" % r.randrange(256))
            elif k < 0.72:
                out.append("%%%02x" % r.randrange(128, 256))
            elif k < 0.8:
                out.append(pct(rand_char(r).encode("utf-8"))[: 3 * r.randrange(1, 3)])
            elif k < 0.84:
                out.append(r.choice(["%", "%2", "%g1", "%%"]))
            elif k < 0.86:
                out.append(pct(rand_char(r).encode("utf-8")) * r.choice(big_sizes(600)))
            else:
                out.append(r.choice(["http://a/", "x", "é", "%2F", "%20", "%7F", "%25", "a=b"]))
        yield ("".join(out),)


def shrink(case):
    s = case[0]
    for k in (len(s) // 2, len(s) // 4, 60, 12, 6):
        if 0 < k < len(s):
            yield (s[k:],)
            yield (s[:-k],)
    for i in range(len(s)):
        yield (s[:i] + s[i + 1:],)
    for i in range(len(s) - 2):
        yield (s[:i] + s[i + 3:],)

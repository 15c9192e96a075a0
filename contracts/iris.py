"""C06: quoting and normalizing IRIs."""
import urllib.parse
import z3
from pymantic import util
from pyvc import terms as T, regex, strings
from pyvc.core import Engine
from pyvc.terms import STR, INT, conj, disj
from pyvc.values import *
from pyvc.verify import *
from .text import fn, goal

RESERVED = "%:/?#[]@!$&'()*+,;="
URI = "[A-Za-z0-9._~:/?#@!$&'()*+,;=%\\[\\]-]"
URI_CS = regex.norm(tuple((ord(c), ord(c)) for c in
                          "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~" + RESERVED))
# a run of escapes the normalization looks at: of bytes other than C0 controls and space
RUN = "(%(2[1-9A-Fa-f]|[3-9A-Fa-f][0-9A-Fa-f]))+"


def scalar(c):
    return z3.And(c >= 0, c <= 0x10FFFF, z3.Not(z3.And(c >= 0xD800, c <= 0xDFFF)))


def escaped_byte(c):
    return z3.And(c >= 0xDC80, c <= 0xDCFF)


def decoded(c):
    """what decoding a run of bytes 0x21.. gives (invalid ones as U+DC80..U+DCFF)"""
    return z3.And(c >= 0x21, disj([scalar(c), escaped_byte(c)]))


def in_set(chars, c):
    return regex.cond_in(regex.norm(tuple((ord(x), ord(x)) for x in chars)), c)


def utf8(c):
    """[(condition, bytes)] of the UTF-8 encoding of a scalar value, and of a byte kept as surrogate"""
    return [(c < 0x80, [c]),
            (z3.And(c >= 0x80, c < 0x800), [0xC0 + c / 64, 0x80 + c % 64]),
            (z3.And(c >= 0x800, c < 0x10000, z3.Not(escaped_byte(c))), [0xE0 + c / 4096, 0x80 + (c / 64) % 64, 0x80 + c % 64]),
            (escaped_byte(c), [c - 0xDC00]),
            (c >= 0x10000, [0xF0 + c / 262144, 0x80 + (c / 4096) % 64, 0x80 + (c / 64) % 64, 0x80 + c % 64])]


def pct(bs):
    return [x for b in bs for x in ("%", Hex(z3.simplify(b), 2, True))]


def octets(src, guard=None):
    """the escapes of the octets of a string"""
    v = z3.FreshConst(INT, "c")
    return FM(src, v, [(g, pct(bs)) for g, bs in utf8(v)])


def quoted(src):
    """the quoted form of a string: URI characters stay, all others become the escapes of their UTF-8 bytes"""
    v = z3.FreshConst(INT, "c")
    keep = regex.cond_in(URI_CS, v)
    return FM(src, v, [(keep, [Ch(v)])] + [(conj([z3.Not(keep), g]), pct(bs)) for g, bs in utf8(v)])


def normalized(src):
    """the normalized form of a decoded run: reserved characters and bytes that are not UTF-8 stay escapes"""
    v = z3.FreshConst(INT, "c")
    res = in_set(RESERVED, v)
    return FM(src, v, [(res, pct([v])), (escaped_byte(v), pct([v - 0xDC00])), (conj([z3.Not(res), z3.Not(escaped_byte(v))]), [Ch(v)])])


def engine():
    def make():
        E = Engine()
        E.contracts[urllib.parse.quote] = quote_contract
        return E
    return make


def quote_contract(E, a, k):
    """urllib.parse.quote(string, safe='/') for text"""
    a = list(a) + [k[x] for x in ("safe",)[len(a) - 1:] if x in k]
    safe = a[1] if len(a) > 1 else "/"
    if len(a) > 2 or set(k) - {"safe"} or not isinstance(safe, str):
        raise Unsupported("quote with an encoding")
    return strings.quote(E, strings.as_str(E, a[0]), safe)


def same(E, name, got, want):
    E.oblige(name, goal(E.equal(got, StrV(want))))


def t_quote(E):
    s = Units("iri", scalar)
    v = z3.FreshConst(INT, "c")
    iri = StrV([FM(s, v, [(z3.BoolVal(True), [Ch(v)])])])
    got = outcome(E, lambda: E.call(fn(util, "quote_normalized_iri"), [iri], {}))
    E.oblige("quoting does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] != "ok":
        return
    same(E, "quoting keeps URI characters and escapes the UTF-8 bytes of all others", got[1], [quoted(s)])
    regex.oblige_in(E, "a quoted IRI consists of URI characters", got[1], regex.lang(URI + "*"))
    # by this contract
    E.oblige("quoting twice equals quoting once", goal(E.equal(by_contract(E, got[1]), got[1])))


def by_contract(E, s):
    """quote_normalized_iri(s), as proved for every string: URI characters stay, all others are escaped"""
    return strings.quote(E, s, RESERVED)


def t_quote_id(E):
    s = Units("uri", lambda c: regex.cond_in(URI_CS, c))
    v = z3.FreshConst(INT, "c")
    uri = StrV([FM(s, v, [(z3.BoolVal(True), [Ch(v)])])])
    got = outcome(E, lambda: E.call(fn(util, "quote_normalized_iri"), [uri], {}))
    E.oblige("quoting a legal URI does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] == "ok":
        E.oblige("a legal URI is quoted as itself", goal(E.equal(got[1], uri)))


def t_requote(E):
    """quoting the normalized form of decoded text gives escapes of its octets, or the character itself where it is unreserved"""
    s = Units("decoded", decoded)
    n = StrV([normalized(s)])
    got = ("ok", by_contract(E, n))
    t = Units("text", scalar)
    w = z3.FreshConst(INT, "c")
    same(E, "lemma: the contract of quoting, as a map on the characters", by_contract(E, StrV([FM(t, w, [(z3.BoolVal(True), [Ch(w)])])])), [quoted(t)])
    v = z3.FreshConst(INT, "c")
    plain = conj([regex.cond_in(URI_CS, v), z3.Not(in_set(RESERVED, v))])
    want = FM(s, v, [(plain, [Ch(v)])] + [(conj([z3.Not(plain), g]), pct(bs)) for g, bs in utf8(v)])
    same(E, "quoting a normalized run escapes exactly the octets of its characters", got[1], [want])
    # bytes of what is escaped lie in the range the normalization looks at, so that it decodes them again
    c = z3.Const("c_oct", INT)
    E.oblige("lemma: octets of decoded characters are neither controls nor spaces",
             z3.Implies(decoded(c), conj([z3.Implies(g, conj([z3.And(b >= 0x21, b <= 0xFF) for b in bs])) for g, bs in utf8(c)])))


def t_normalize(E):
    iri = sv(z3.Const("iri", STR))
    calls = []

    def sub_hook(E, pat, repl, s):
        if s is not iri:
            return None
        calls.append(pat)
        r = regex.lang(pat)
        w = regex.lang(RUN)
        E.oblige("the normalized parts are the runs of escapes of bytes other than controls and space",
                 z3.BoolVal(regex.difference(r, w) is None))
        run_obligations(E, repl)
        return out

    out = sv(z3.Const("result_of_sub", STR))
    E.sub_hook = sub_hook
    got = outcome(E, lambda: E.call(fn(util, "normalize_iri"), [iri], {}))
    E.oblige("normalizing does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] != "ok":
        return
    if len(calls) != 1:
        raise Unsupported(f"{len(calls)} substitutions")
    E.oblige("everything but the runs of escapes is kept", goal(E.equal(got[1], out)))


def run_obligations(E, repl):
    """the replacement of one run of escapes of the bytes b0 b1 ..."""
    if isinstance(repl, (str, StrV)):
        raise Unsupported("substitution template")
    b0 = z3.FreshConst(INT, "b")
    byte = lambda c: z3.And(c >= 0x21, c <= 0xFF)
    E.assume(byte(b0))
    rest = Units("rest", byte)
    v, w = z3.FreshConst(INT, "b"), z3.FreshConst(INT, "b")
    text = StrV(["%", Hex(b0, 2, None), FM(rest, v, [(z3.BoolVal(True), ["%", Hex(v, 2, None)])])])
    octs = StrV([Ch(b0), FM(rest, w, [(z3.BoolVal(True), [Ch(w)])])], bytes)
    U = Units("decoded", decoded)
    valid = z3.FreshConst(z3.BoolSort(), "valid_utf8")
    seen = []

    def decode_hook(E, s, codec, errors):
        if codec not in ("utf-8", "utf8", "u8"):
            raise Unsupported("decoding with " + codec)
        seen.append(1)
        E.oblige("the decoded bytes are the run's", goal(E.equal(StrV(s.pieces), StrV(octs.pieces))))
        if errors == "surrogateescape":
            return ident(U)
        if errors == "strict":
            if not E.decide(valid):
                raise PyRaise(ExcV(UnicodeDecodeError))
            return ident(U)
        if E.decide(valid):
            return ident(U)
        E.oblige("bytes that are not UTF-8 are kept", z3.BoolVal(False))
        return ident(Units("other", scalar))

    def ident(u):
        c = z3.FreshConst(INT, "c")
        return StrV([FM(u, c, [(z3.BoolVal(True), [Ch(c)])])])

    E.decode_hook = decode_hook
    got = outcome(E, lambda: E.call(repl, [regex.MatchV(text)], {}))
    E.decode_hook = None
    E.oblige("normalizing a run of escapes does not raise", z3.BoolVal(got[0] == "ok"))
    if got[0] != "ok":
        return
    if not seen:
        raise Unsupported("the run is not decoded")
    same(E, "reserved characters and bytes that are not UTF-8 stay escapes, all others are decoded", got[1], [normalized(U)])


def t_spec(E):
    """laws of the specification itself (no code): what normalized text looks like"""
    u = Units("decoded", decoded)
    n = StrV([normalized(u)])
    esc = "%(2[135-9A-F]|3[ABDF]|40|5[BD]|[89A-F][0-9A-F]|24)"
    regex.oblige_in(E, "lemma: a normalized run has escapes of reserved characters and non-ASCII bytes only, and no raw reserved character",
                    n, regex.lang("(" + esc + "|[^\\x00-\\x20%:/?#\\[\\]@!$&'()*+,;=])*"))
    c = z3.Const("c_spec", INT)
    E.oblige("lemma: every decoded character has octets", z3.Implies(decoded(c), disj([g for g, _ in utf8(c)])))


def tasks():
    return [Task("quote_normalized_iri", t_quote, ["quote_normalized_iri", "percent_encode"]),
            Task("quote_normalized_iri of legal URIs", t_quote_id, ["quote_normalized_iri", "percent_encode"]),
            Task("normalize_iri", t_normalize, ["normalize_iri", "percent_decode"]),
            Task("quote_normalized_iri of a normalized run", t_requote, []),
            Task("specification of normal forms", t_spec, [])]

"""U01 URL parsing, U02 setters, U03 IP address hosts, U04 percent-encoding and the encoding of queries."""
import random
import unicodedata
from .core import *
from . import url_ref as R
from . import url_gen as G
from . import enc_ref as X
from .encoding import LABELS


def _fld(s):
    return "".join(c if 0x20 < ord(c) < 0x7F and c != "|" else "{%x}" % ord(c) for c in s)


def _show(u):
    return "|".join(_fld(f) for f in u.fields())


def _again(u):
    try:
        return _fld(R.parse(u.href()).href())
    except R.Failure:
        return "FAIL"


def _expect1(c):
    s, base, ops = c
    out = []
    try:
        try:
            b = R.parse(base) if base is not None else None
            u = R.parse(s, b)
        except R.Failure:
            return "FAIL"
        out.append(_show(u) + " => " + _again(u))
        for k, v in ops:
            try:
                u.set(k, v)
                out.append(_show(u) + " => " + _again(u))
            except R.Failure:
                out.append("FAIL")
        return " ## ".join(out)
    except R.Ambiguous:
        return None


def expect(cases):
    return [_expect1(c) for c in cases]


def hx(s):
    return s.encode("utf-8").hex() or "."


def line(c):
    s, base, ops = c
    k = ("s8", "s32", "s16")[(len(s) + len(ops)) % 3]
    return " ".join([k, hx(s), "-" if base is None else "b" + hx(base)] + ["%s:%s" % (o, hx(v)) for o, v in ops])


def sig(c, got, want):
    g, w = got.split(" ## "), want.split(" ## ")
    for i, (a, b) in enumerate(zip(g, w)):
        if a != b:
            if i == 0:
                if a == "FAIL" or b == "FAIL":
                    return "a URL is %s" % ("refused that the standard accepts" if a == "FAIL" else "accepted that the standard refuses")
                return "parsing gives other components than the standard"
            return "setting %s gives other components than the standard" % c[2][i - 1][0]
    return "results differ"


SETGOOD = ["http://h/p?q#f", "https://u:p@h:1/p", "file:///C:/x", "file://h/x", "a:b", "a:/p", "a://h", "a://u@h:2/p/q", "a:///p", "ws://1.2.3.4/", "http://[::1]:9/a/b/../c", "mailto:x?y#z", "file:///", "file://1.2.3.4/p", "file://[::1]/p", "http://b\u00fc/", "a:/.//p", "a:"]


def gen_U01(r, tier):
    yield from G.sweep()
    for _ in range(250000 if tier == "quick" else 3000000):
        s, b, _ops = G.case(r)
        yield s, b, []


def gen_U02(r, tier):
    yield from G.sweep_set()
    for _ in range(150000 if tier == "quick" else 1500000):
        s, b, _ops = G.case(r)
        if r.random() < .7:
            s, b = r.choice(SETGOOD), None
        yield s, b, [G.setter(r) for _ in range(r.choice([1, 1, 2, 3, 5, 8]))]


def gen_U03(r, tier):
    for _ in range(160000 if tier == "quick" else 2000000):
        h = "[" + G.ipv6(r) + "]" if r.random() < .5 else G.ipv4(r)
        sch = r.choice(["http", "https", "ws", "file", "a", "ftp"])
        if r.random() < .8:
            yield sch + "://" + h + r.choice(["", "/", ":8", "/p", "?q"]), None, []
        else:
            yield sch + "://h/", None, [(r.choice(["host", "hostname"]), h)]


# U04 ----------------------------------------------------------------------------------------

ENCS = list(LABELS)   # in the order of encoding_name
OUT = [e for e in ENCS if e not in ("replacement", "utf-16be", "utf-16le")]
SETS = [R.c0, R.fragment_set, R.query_set, R.special_query_set, R.path_set, R.userinfo_set,
        lambda c: R.userinfo_set(c) or c in "$%&+,", lambda c: R.userinfo_set(c) or c in "$%&+,!'()~"]


def url_code_point(c):
    return c < 128 and chr(c) in "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!$&'()*+,-./:;=?@_~" or 0xA0 <= c <= 0x10FFFD and not 0xD800 <= c <= 0xDFFF and not 0xFDD0 <= c <= 0xFDEF and c & 0xFFFE != 0xFFFE


def pct(e, s, st, plus=False):
    o = []
    for x in X.encode_events(e, [ord(c) for c in s]):
        if isinstance(x, tuple):
            o.append("%%26%%23%d%%3B" % x[1])
            continue
        for b in x:
            o.append("+" if plus and b == 0x20 else "%%%02X" % b if st(chr(b)) else chr(b))
    return "".join(o)


T4 = list("abz019 %&+,!'()~*-._/?#<>\"`{}|^[]@:;=$\\") + ["\x00", "\x1b", "\x0e", "\x7f", "\x80", "\xa5", "\u203e", "\u00e9", "\u3042", "\u65e5", "\u4e2d", "\uac00", "\u0434", "\u20ac", "\uff71", "\u2212", "\U0001f600", "\U00020000", "\ufffd", "\ue5e5"]
D4 = ["%41", "%2f", "%ff", "%", "%4", "%zz", "%%41", "%E3%81%82", "%e3%8", "%g0", "%0G", "%00", "a", "+", "\u3042", "%\u0031"]
SEG4 = ["C:", "c|", "C:/", "C|\\", "C:a", "C", "", ":", "1:", "C:#", "C:?x", "\u00e9:", ".", "..", "%2e", "%2E", ".%2e", "%2e.", "%2E%2e", "...", "%2e%2f", "%2", ".%2", "C|", "http", "https", "ftp", "file", "ws", "wss", "HTTP", "gopher", "httpss", "[:", "`:", "{:", "@:", "z|", "Z:/x"]
V4 = ["1.2.3.4", "255.255.255.255", "256.0.0.1", "1.2.3", "1.2.3.4.5", "", ".", "...", "1..2.3", "a.b.c.d", "1.2.3.x", "1.2.3.4a", "0x1.2.3.4", "1.2.3.+4", "-1.2.3.4", " 1.2.3.4", "0.0.0.0", "1.2.3.256", "999.1.1.1", "1.2.3.1000", "1234.1.1.1"]


def v4(s):
    p = s.split(".")
    return len(p) == 4 and all(1 <= len(x) <= 3 and all(c in "0123456789" for c in x) and int(x) <= 255 for x in p)


def case4(r):
    k = r.random()
    if k < .4:
        e = r.choice(OUT) if r.random() < .8 else r.choice(["utf-8", "iso-2022-jp"])
        return ("pct", e, r.randrange(8), r.random() < .3, "".join(r.choice(T4) if r.random() < .9 else chr(r.choice([r.randrange(0xD800), r.randrange(0xE000, 0x110000)])) for _ in range(r.randrange(0, 9))))
    if k < .5:
        return (r.choice(["dec", "sdec", "pe"]), "".join(r.choice(D4) for _ in range(r.randrange(0, 6))))
    if k < .55:
        return ("seg", r.choice(SEG4) if r.random() < .7 else G.mutate(r, r.choice(SEG4)))
    if k < .6:
        s = r.choice(V4) if r.random() < .5 else ".".join(str(r.choice([r.randrange(256), r.randrange(400)])) for _ in range(4))
        if r.random() < .1:
            s = ".".join(x.zfill(r.choice([1, 1, 3, 4, 6])) for x in s.split("."))
        return ("v4", G.mutate(r, s) if r.random() < .5 else s)
    if k < .9:
        e = r.choice(ENCS)
        s, b, _ = G.case(r)
        if r.random() < .8:
            s = r.choice(["http://h/", "https://h/p", "ws://h/", "wss://h/", "file:///p", "ftp://h", "a://h/", "a:b", "", "/p", "//h", "p"]) + "?" + "".join(r.choice(T4) for _ in range(r.randrange(0, 7))) + r.choice(["", "#f", "#\u3042"])
            if b is None and s[:1] in "/?p":
                b = r.choice(["http://h/a?b", "ws://h/", "file:///x/y", "a://h/c", "http://h/?\u3042"])
        return ("query", e, s, b)
    s, _, _ = G.case(r)
    k = r.random()
    if k < .3:
        t = s + r.choice(["", "#", "#f", "/", "?"])
    elif k < .6:
        t = G.mutate(r, s)
    else:
        s = r.choice(["http://h/p?q#f", "HTTP://H/p?q#f", "http://h:80/p?q#g", "http://h/p?q", "http://h/a/../p?q#f", "http://h/p?q#", "http://h/p", "http://h/p?"])
        t = r.choice(["http://h/p?q#f", "HTTP://H/p?q#f", "http://h:80/p?q#g", "http://h/p?q", "http://h/a/../p?q#f", "http://h/p?q#", "http://h/p", "http://h/p?"])
    return ("eq", s, t)


def gen_U04(r, tier):
    for n in range(10):
        yield ("set", n)
    yield ("byte",)
    for n in [0, 1, 9, 10, 99, 65535, 65536, 0x10FFFF, 4294967295] + [r.randrange(1 << 32) for _ in range(60)]:
        yield ("int", n)
    for _ in range(140000 if tier == "quick" else 3000000):
        yield case4(r)


def line4(c):
    op = c[0]
    if op in ("set", "int"):
        return "%s %d" % c
    if op == "byte":
        return "byte"
    if op == "pct":
        return "pct %d %d %d %s" % (ENCS.index(c[1]) + 1, c[2], c[3], hx(c[4]))
    if op == "query":
        return "query %d %s %s" % (ENCS.index(c[1]) + 1, hx(c[2]), "-" if c[3] is None else "b" + hx(c[3]))
    if op == "eq":
        return "eq 0 %s %s" % (hx(c[1]), hx(c[2]))
    return "%s %s" % (op, hx(c[1]))


def _expect4(c):
    op = c[0]
    if op == "set":
        from .infra import runs
        return runs(lambda x: SETS[c[1]](chr(x)) if c[1] < 8 else url_code_point(x) if c[1] == 8 else chr(x) in R.FORBIDDEN)
    if op == "byte":
        return "".join("%%%02X" % b for b in range(256))
    if op == "int":
        return str(c[1])
    if op == "pct":
        return hx(pct(c[1], c[4], SETS[c[2]], c[3]))
    if op in ("dec", "sdec"):
        return R.percent_decode(c[1]).hex() or "."
    if op == "pe":
        s = c[1]
        a = len(s) >= 3 and s[0] == "%" and s[1] in R.HEX and s[2] in R.HEX
        return "%d%d" % (a, a and len(s) == 3)
    if op == "seg":
        s = c[1]
        l = s.lower() if s.isascii() else s
        return "%d%d%d%d%d%d%s" % (R.drive(s), R.drive(s) and s[1] == ":", R.starts_drive(s), l in (".", "%2e"), l in ("..", ".%2e", "%2e.", "%2e%2e"), s in R.SPECIAL, R.SPECIAL.get(s) or "-")
    if op == "v4":
        if v4(c[1]) and any(len(x) > 1 and x[0] == "0" for x in c[1].split(".")):
            return None   # later editions require the shortest form
        return str(int(v4(c[1])))
    try:
        if op == "eq":
            try:
                a, b = R.parse(c[1]), R.parse(c[2])
            except R.Failure:
                return "FAIL"
            f = lambda u: u.href().split("#")[0]
            return "%d%d" % (a.href() == b.href(), f(a) == f(b))
        e = c[1] if c[1] in OUT else "utf-8"
        utf8 = R.query_encoder
        R.query_encoder = lambda buf, url, st: pct(e if url.special() and url.scheme not in ("ws", "wss") else "utf-8", buf, st)
        try:
            b = R.parse(c[3]) if c[3] is not None else None
            h = R.parse(c[2], b).href()
            return hx(h) + " " + hx(h.split("#")[0])
        except R.Failure:
            return "FAIL"
        finally:
            R.query_encoder = utf8
    except R.Ambiguous:
        return None


def expect4(cases):
    return [_expect4(c) for c in cases]


NAME4 = {"set": "code point set", "byte": "percent_encode", "int": "serialize_integer", "pct": "percent-encoding after encoding", "dec": "percent_decode", "sdec": "string_percent_decode", "pe": "percent-encoded byte test",
         "seg": "drive letter, dot segment or scheme test", "v4": "is_valid_ipv4_address_string", "query": "parsing with a document encoding", "eq": "URL equality"}


def sig4(c, got, want):
    return NAME4[c[0]] + " differs from the standard" + (" (set %d)" % c[1] if c[0] == "set" else " (%s)" % c[1] if c[0] in ("pct", "query") else "")


def U04(c, tier, r):
    exe = Build().binary("url_parts", "url_parts.cpp", libs=("encoding", "url"), link=ICU)
    cs = list(gen_U04(r, tier))
    for k in cs:
        c.count("operation." + k[0])
    compare(c, exe, cs, line4, expect4, sig4, tier, show=repr)


# U05 ----------------------------------------------------------------------------------------
def mapped(l):
    m = "".join(c if c in "\u00DF\u03C2" else unicodedata.normalize("NFKC", unicodedata.normalize("NFKC", c).lower()) for c in l)
    m = unicodedata.normalize("NFC", m)
    if not m and l:
        raise R.Ambiguous("label maps to nothing")
    if any(ord(c) > 0x7F for c in l) and any(ord(c) < 0x80 and not (c.isalnum() or c == "-") and c not in l for c in m):
        raise R.Ambiguous("mapped to punctuation")
    if not all(R._ordinary(c) or ord(c) < 0x80 for c in m):
        raise R.Ambiguous("IDNA")
    return m


def labels(d):
    """[(Unicode label, ASCII label)]"""
    out = []
    for l in "".join("." if c in "\u3002\uFF0E\uFF61" else c for c in d).split("."):
        m = mapped(l)
        if m.startswith("xn--"):
            try:
                u = m[4:].encode("ascii").decode("punycode")
            except (UnicodeError, ValueError, OverflowError):
                raise R.Ambiguous("malformed Punycode")
            if not u or all(ord(c) < 0x80 for c in u) or not all(R._ordinary(c) for c in u) or unicodedata.normalize("NFC", u) != u or "xn--" + u.encode("punycode").decode() != m or u.startswith("xn--"):
                raise R.Ambiguous("unusual Punycode")
            out.append((u, m))
        elif all(ord(c) < 0x80 for c in m):
            out.append((m, m))
        else:
            out.append((m, "xn--" + m.encode("punycode").decode("ascii")))
    return out


def _expect5(c):
    op, f, s = c[0], c[1], c[2]
    if op == "heq":
        if not f and (not s or not c[3]):
            return "FAIL"
        try:
            try:
                a, b = R.parse_host(s, f), R.parse_host(c[3], f)
            except R.Failure:
                return "FAIL"
        except R.Ambiguous:
            return None
        x, y = (hostname(h) for h in (a, b))
        return "%d %s %s" % (type(a) is type(b) and x == y, hx(x), hx(y))
    try:
        ls = labels(s)
    except R.Ambiguous:
        return None
    a = ".".join(x for _, x in ls)
    if op == "uni":
        if any(0x7f == ord(c) or ord(c) < 0x20 for c in s):
            return None
        return hx(".".join(x for x, _ in ls))
    strict = op == "dom" or f
    if not strict:
        if any(len(x) > 63 for _, x in ls) or len(a) > 253:
            return None
        return hx(a)
    if s == "" or any(x == "" for _, x in ls):
        if ls[-1][1] == "" and len(ls) > 1 and all(x for _, x in ls[:-1]):
            return None     # a final dot: editions of UTS 46 differ
        bad = True
    else:
        bad = any(len(x) > 63 for _, x in ls) or len(a) > 253 or any(not (c.isalnum() or c == "-" or ord(c) > 127) for x, _ in ls for c in x)
    if not bad and any(x.startswith("-") or x.endswith("-") or x[2:4] == "--" for x, _ in ls):
        return None         # CheckHyphens in strict mode: editions differ
    if op == "dom":
        return "0" if bad else "1"
    return "FAIL" if bad else hx(a)


def hostname(h):
    if isinstance(h, int):
        return ".".join(str(h >> k & 255) for k in (24, 16, 8, 0))
    if isinstance(h, (list, tuple)):
        return "[" + R.ser_ipv6(h) + "]"
    return h


def expect5(cases):
    return [_expect5(c) for c in cases]


def label5(r):
    k = r.random()
    if k < .3:
        return "".join(r.choice("abcxyzABZ019-_") for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
    l = "".join(r.choice(["a", "b", "k", "Z", "1", "-", "\u00e9", "\u00fc", "\u00df", "\u03c2", "\u03c3", "\u3042", "\u30ab", "\u65e5", "\u672c", "\u0436", "\u0416", "\u00c9", "\uff21", "\uff11", "e\u0301", "\u212b", "\u30fc"]) for _ in range(r.choice([1, 1, 2, 3, 4])))
    if k < .7:
        return l
    if k < .95:
        try:
            p = "xn--" + mapped(l).encode("punycode").decode("ascii")
        except R.Ambiguous:
            return l
        return p if k < .85 else p.upper() if k < .9 else G.mutate(r, p)
    return r.choice("ab\u3042") * r.choice([20, 57, 62, 63, 64, 70])


def case5(r):
    k = r.random()
    d = "".join(label5(r) + (r.choice([".", ".", ".", "\u3002", "\uff0e", "\uff61"])) for _ in range(r.choice([0, 1, 1, 2, 3]))) + label5(r)
    if r.random() < .03:
        d += ".".join("abcdefgh" for _ in range(r.choice([26, 28, 30])))
    if k < .3:
        return ("uni", 0, d)
    if k < .5:
        return ("asc", r.random() < .5, d)
    if k < .65:
        return ("dom", 0, d)
    ns = r.random() < .4
    host = lambda: r.choice([lambda: d if r.random() < .5 else d.upper(), lambda: d.replace("\u3042", "%E3%81%82"), lambda: G.ipv4(r), lambda: "[" + G.ipv6(r) + "]", lambda: r.choice(["1.2.3.4", "0x1020304", "[::1]", "[0::1]", "[0:0:0:0:0:0:0:1]", "a", "A", "%61", "16909060", "[1::2:3]", "[1:0::2:3]", ""])])()
    a = host()
    if r.random() < .3:     # near misses: addresses that differ in one piece, names that differ in one place
        if r.random() < .6:
            v6 = r.random() < .6
            p = [r.choice([0, 0, 1, 255, r.randrange(65536 if v6 else 256)]) for _ in range(8 if v6 else 4)]
            q = list(p)
            i = r.randrange(len(p))
            q[i] = (q[i] ^ r.choice([1, 1 << r.randrange(16 if v6 else 8), r.randrange(256)])) & (65535 if v6 else 255)
            w = lambda x: "[" + (":".join("%x" % y for y in x) if r.random() < .5 else R.ser_ipv6(x)) + "]" if v6 else ".".join(r.choice(["%d", "0x%x", "0%o"]) % y for y in x) if r.random() < .7 else str(int.from_bytes(bytes(x), "big"))
            return ("heq", ns, w(p), w(q))
        i = r.randrange(len(a) + 1)
        return ("heq", ns, a, r.choice([lambda: a[:i] + r.choice("ab0.-") + a[i:], lambda: a[:i] + a[i + 1:], lambda: a[:i] + r.choice("abcxyz019") + a[i + 1:]])())
    return ("heq", ns, a, a if r.random() < .2 else host())


def line5(c):
    return "%s %d %s" % (c[0], c[1], " ".join(hx(x) for x in c[2:]))


NAME5 = {"uni": "domain to Unicode", "asc": "domain to ASCII", "dom": "is_valid_domain_string", "heq": "host equality"}


RULE = {
    "U01": "random URL strings (grammar of schemes, credentials, hosts, ports, dot segments, drive letters, plus mutations), with and without a base URL; distinct = distinct recorded cases",
    "U02": "random sequences of component assignments on parsed URLs; every component compared after each assignment",
    "U03": "random IPv4 and IPv6 literals in every notation, valid and not, as hosts of URLs and as host/hostname assignments",
    "U05": "random domains of ordinary letters, in Unicode and Punycode, with case, width and full stop variants, converted both ways; pairs of hosts compared",
    "U04": "every code point through every percent-encode set; random strings percent-encoded in every encoding, percent-decoded, and as queries of URLs parsed with every document encoding; pairs of URLs compared"}


def check(prop, tier):
    c = Check(prop, tier)
    c.rule = RULE[prop]
    c.assumptions = ["g++ 13 with AddressSanitizer and UndefinedBehaviorSanitizer, library and libstdc++ assertions on",
                     "vf/url_ref.py, written from the URL Standard (edition of late 2020, which the library follows), compared with Node's URL during development",
                     "inputs on which editions of the standard differ get no verdict beyond the sanitizers"]
    if prop == "U05":
        exe = Build().binary("url_parts", "url_parts.cpp", libs=("encoding", "url"), link=ICU)
        r = random.Random(SEED * 6151 + 5)
        cs = [case5(r) for _ in range(60000 if tier == "quick" else 800000)]
        compare(c, exe, cs, line5, expect5, lambda x, got, w: NAME5[x[0]] + " differs from the standard", tier, show=lambda x: repr(x))
        return c.finish()
    if prop == "U04":
        U04(c, tier, random.Random(SEED * 7919 + 4))
        return c.finish()
    exe = Build().binary("url", "url.cpp", libs=("encoding", "url"), link=ICU)
    rnd = random.Random(SEED * 7919 + ord(prop[2]))
    cs = list({"U01": gen_U01, "U02": gen_U02, "U03": gen_U03}[prop](rnd, tier))
    compare(c, exe, cs, line, expect, sig, tier, show=repr)
    for s, b, ops in cs:
        c.count("with a base URL" if b is not None else "without a base URL")
        for o, _ in ops:
            c.count("assignments to " + o)
    return c.finish()

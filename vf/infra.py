"""I01: the Infra Standard's string operations, code point classes and the Unicode conversions."""
import random
from .core import *

WS = "\t\n\f\r "
PRED = {
    "surrogate": lambda c: 0xD800 <= c <= 0xDFFF,
    "scalar": lambda c: not 0xD800 <= c <= 0xDFFF,
    "noncharacter": lambda c: 0xFDD0 <= c <= 0xFDEF or c & 0xFFFE == 0xFFFE,
    "ascii": lambda c: c < 128,
    "tabnl": lambda c: c in (9, 10, 13),
    "white": lambda c: c in (9, 10, 12, 13, 32),
    "c0": lambda c: c < 32,
    "c0space": lambda c: c <= 32,
    "control": lambda c: c < 32 or 0x7F <= c <= 0x9F,
    "digit": lambda c: 48 <= c <= 57,
    "upperhex": lambda c: 48 <= c <= 57 or 65 <= c <= 70,
    "lowerhex": lambda c: 48 <= c <= 57 or 97 <= c <= 102,
    "hex": lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102,
    "upper": lambda c: 65 <= c <= 90,
    "lower": lambda c: 97 <= c <= 122,
    "alpha": lambda c: 65 <= c <= 90 or 97 <= c <= 122,
    "alnum": lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122,
}
CODEC = {"c": "utf-8", "8": "utf-8", "2": "utf-16-be", "4": "utf-32-be"}


def runs(p):
    o, start = [], None
    for c in range(0x110001):
        t = c < 0x110000 and p(c)
        if t and start is None:
            start = c
        if not t and start is not None:
            o.append("%d-%d " % (start, c - 1))
            start = None
    return "".join(o)


def hx(s, t):
    return s.encode(CODEC[t]).hex() or "."


def low(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def up(s):
    return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)


def norm(s):
    return s.replace("\r\n", "\n").replace("\r", "\n")


def words(s):
    o, w = [], ""
    for c in s:
        if c in WS:
            if w:
                o.append(w)
            w = ""
        else:
            w += c
    return o + [w] if w else o


def commas(s):
    v = s.split(",")
    if v[-1] == "":
        v.pop()
    return [x.strip(WS) for x in v]


TRANS = {"lower": low, "upper": up, "nonl": lambda s: s.replace("\r", "").replace("\n", ""), "norm": norm,
         "strip": lambda s: s.strip(WS), "collapse": lambda s: " ".join(words(s)), "cast": lambda s: s}
POOL = "aAzZ@[`{kKsS09 \t\n\f\r,,;.\x0b\0\x7f\x80\x85\xa0\xe9\xdf\u0130\u0131\u017f\u07ff\u0800\u2028\u3000\u3042\ud7ff\ue000\ufdd0\ufeff\ufffd\uffff\U00010000\U0001f600\U00020000\U0010ffff\u212a"


def string(r, n=None):
    k = r.random()
    n = r.randrange(0, 14) if n is None else n
    if k < .5:
        return "".join(r.choice(POOL) for _ in range(n))
    if k < .8:
        return "".join(r.choice(" \r\n\t\fa,b\u3042\U0001f600") for _ in range(n))
    return "".join(chr(c) for c in (r.choice([r.randrange(0x110000), r.randrange(0x3000), r.randrange(128)]) for _ in range(n)) if not 0xD800 <= c <= 0xDFFF)


def case(r):
    k = r.random()
    a, b = r.choice("c824"), r.choice("c824")
    s = string(r)
    if k < .45:
        op = r.choice(list(TRANS))
        return (op, a, b, s, None)
    if k < .75:
        op = r.choice(["collect", "skip", "split", "words", "commas", "ascii", "split"])
        if op == "ascii" and r.random() < .5:
            s = "".join(c for c in s if ord(c) < 128)
        x = "".join(sorted(set(string(r, 6)))) if op == "collect" else (r.choice(s) if s and r.random() < .7 else r.choice(POOL)) if op == "split" else None
        if op == "collect" and s and r.random() < .8:
            x += s[:r.randrange(len(s) + 1)]
        return (op, a, a, s, x or ("q" if op in ("collect", "split") else None))
    if k < .87:
        t = s
        for _ in range(r.randrange(0, 3)):
            t = r.choice([low(t), up(t), t, t + r.choice(POOL), t[:-1], t.swapcase() if r.random() < .2 else t])
        if t and r.random() < .3:
            p = r.randrange(len(t))
            t = t[:p] + chr(ord(t[p]) ^ 32 if not 0xD800 <= ord(t[p]) ^ 32 <= 0xDFFF else 97) + t[p + 1:]
        return ("match", a, b, s, t)
    op = r.choice(["blower", "bupper", "bmatch", "iso"])
    lim = 128 if op == "iso" and r.random() < .5 else 256
    m = bytes(r.choice([r.randrange(lim), r.randrange(64, 128)]) for _ in range(r.randrange(0, 12)))
    t = None
    if op == "bmatch":
        t = r.choice([m.lower(), m.upper(), m, m[:-1], bytes((x ^ 32) for x in m)])
    return (op, "c", "c", m, t)


def line(c):
    op, a, b, s, x = c
    if op == "pred":
        return "pred " + a
    if isinstance(s, bytes):
        return "%s c c %s %s" % (op, s.hex() or ".", (x.hex() or ".") if x is not None else "")
    y = "" if x is None else hx(x, b) if op == "match" else x.encode().hex()
    return "%s %s %s %s %s" % (op, a, b, hx(s, a), y)


def lst(v, t):
    return "[" + "".join(hx(x, t) + "," for x in v) + "]"


def expect1(c):
    op, a, b, s, x = c
    if op == "pred":
        return runs(PRED[a])
    if op in TRANS:
        return hx(TRANS[op](s), b)
    if op == "collect":
        n = 0
        while n < len(s) and s[n] in x:
            n += 1
        return hx(s[:n], a) + " " + hx(s[n:], a)
    if op == "skip":
        return hx(s.lstrip(WS), a)
    if op == "split":
        return lst(s.split(x), a)
    if op == "words":
        return lst(words(s), a)
    if op == "commas":
        return lst(commas(s), a)
    if op == "ascii":
        return "1" if all(ord(c) < 128 for c in s) else "0"
    if op == "match":
        return "1" if low(s) == low(x) else "0"
    if op == "blower":
        return bytes(c + 32 if 65 <= c <= 90 else c for c in s).hex() or "."
    if op == "bupper":
        return bytes(c - 32 if 97 <= c <= 122 else c for c in s).hex() or "."
    if op == "bmatch":
        return "1" if s.lower() == x.lower() else "0"
    if op == "iso":
        return ("".join("%08x" % c for c in s) or ".") + (" 1" if all(c < 128 for c in s) else " 0")


def expect(cases):
    return [expect1(c) for c in cases]


NAME = {"cast": "encoding_cast", "norm": "normalize_newlines", "nonl": "strip_newlines", "commas": "split_on_commas", "words": "split_on_ascii_whitespace", "split": "strictly_split_on_particular_delimiter",
        "collect": "collect_sequence_of_code_points", "pred": "code point class", "iso": "isomorphic decoding", "match": "ASCII case-insensitive match"}


def sig(c, got, want):
    return "%s gives another result%s" % (NAME.get(c[0], c[0]), " (" + c[1] + ")" if c[0] == "pred" else "")


def show(c):
    return repr(c)


def check(prop, tier):
    c = Check(prop, tier)
    c.rule = "One case is one operation on one string in one encoding form (or one code point class over all code points); distinct by operation, input and result."
    c.assumptions = ["g++ 13 with AddressSanitizer and UndefinedBehaviorSanitizer, library and libstdc++ assertions on", "Python's UTF codecs as the reference for the encoding forms",
                     "strings are well-formed in their encoding form, as the operations document"]
    r = random.Random(SEED * 557 + 1)
    cases = [("pred", n, "", "", None) for n in PRED]
    allc = "".join(map(chr, [x for x in range(0x110000) if not 0xD800 <= x <= 0xDFFF]))
    for i in range(0, len(allc), 4096):   # every scalar value through the conversions, in every pair of forms over the run
        for a, b in ([("c824"[i // 4096 % 4], "c824"[(i // 16384) % 4])] if tier == "quick" and i > 0x12000 else [(x, y) for x in "c824" for y in "c824"]):
            cases.append(("cast", a, b, allc[i:i + 4096], None))
            cases.append((("lower", "upper")[i // 4096 % 2], a, b, allc[i:i + 4096], None))
    cases += [case(r) for _ in range(300000 if tier == "quick" else 5000000)]
    for k in cases:
        c.count("operation." + k[0])
    exe = Build().binary("infra", "infra.cpp")
    compare(c, exe, cases, line, expect, sig, tier, show=show)
    return c.finish()

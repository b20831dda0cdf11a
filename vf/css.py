"""C01 CSS tokenization, C02 CSS parsing."""
import random
from .core import *
from . import css_ref as R
from . import enc_ref as X
from .encoding import LABEL

FRAG = ["a", "b-c", "_x", "--v", "-", "-a", "+", "+1", "-1", "-.5", ".5", ".", "..", "1", "0", "12", "1e3", "1E-2", "1e", "1e+", "1.5e+2x", "3px", "4%", "10e3em", "1.", "1.a", "-1-a", "1--x", "+.5e1", "e3",
        "#", "#a", "#1", "#-", "#--", "#-1", "#\\61", "@", "@a", "@-", "@--", "@-a", "@1", "@media", "@\\", "\\", "\\a", "\\61 ", "\\000061", "\\0000611", "\\0", "\\d800", "\\110000", "\\10ffff ", "\\\n", "\\g", "\\ffffff",
        "'", '"', "'a'", '"b"', "'a\\\nb'", "'a\nb", '"\\', "'\\", '"x\\22 y"', "url(", "URL(", "uRl(a)", "url( a )", "url('x')", "url( 'x')", "url(  \"x\")", "url(a b)", "url(a'b)", "url(a\\)b)", "url(\\", "url(a\\\nb)", "url", "u\\72l(x)", "url(\x01)", "url(a(b)", "url( ", "url(a ", "url(   'y' )", "url(\t\n'z')", "url()", "url(\\61 b)",
        "f(", "f(a,b)", "-f(", "--(", "(", ")", "[", "]", "{", "}", ",", ":", ";", "!", "!important", "! important", "!IMPORTANT ", "!x", "! /**/ Important", "<!--", "-->", "<!-", "<!", "<", "--", "->", ">", "/", "*", "/*", "*/", "/**/", "/* x */", "/*/", "/***/", "/* *", "=", "~", "|", "^", "$", "&", "%", "?", "`",
        " ", "  ", "\n", "\t", "\r\n", "\r", "\f", " \t\n ", "\0", "\x01", "\x0b", "\x7f", "\u0080", "\u00e9", "\u3042", "\uffff", "\U0001f600", "\U0010ffff", "\ud800", "\udfff"]
IDENT = ["a", "color", "-x", "--y", "b\u00e9", "\\31 x", "important", "url", "A1", "not", "e1", "E"]


def num(r):
    s = r.choice(["", "", "", "+", "-"])
    n = r.choice(["0", "1", "7", "12", "255", "4294967295", "4294967296", "99999999999", "00012", "123456789012345678901234567890", str(r.randrange(10 ** 9))])
    k = r.random()
    if k < .4:
        f = ""
    else:
        f = "." + r.choice(["0", "5", "25", "125", "0625", "123456789", "99999999999", "000001", "1" * r.randrange(1, 40), str(r.randrange(1000))])
        if k < .6:
            n = ""
    e = r.choice(["", "", "", "e0", "e1", "E2", "e+3", "e-4", "e10", "e-10", "e400", "e-400", "e99999999999", "e-5000000000", "e308", "E+22"])
    return s + n + f + e


def value(r, d=0):
    k = r.random()
    if k < .2:
        return r.choice(IDENT)
    if k < .35:
        return num(r) + r.choice(["", "", "%", "px", "e", "e-", "--x", "-", "\\65 ", "E3"])
    if k < .45:
        return r.choice(["'s'", '"t\\"u"', "#fff", "#-a", "#1", "url(x)", "url( \"y\" )", "url(bad bad)"])
    if k < .55 and d < 5:
        return r.choice(IDENT) + "(" + values(r, d + 1) + r.choice([")", ")", ")", ")", "", "]"])
    if k < .7 and d < 5:
        o = r.choice("{[(")
        return o + values(r, d + 1) + r.choice([{"{": "}", "[": "]", "(": ")"}[o]] * 6 + ["", "}", "]", ")"])
    if k < .8:
        return r.choice([",", ":", ";", "!", "!important", "<!--", "-->", "@x", "@media", "/**/", "> ", "+ ", "~"])
    return r.choice(FRAG)


def values(r, d=0):
    return "".join(value(r, d) + r.choice(["", " ", " ", "", "\n", "/**/"]) for _ in range(r.randrange(0, 4)))


def decl(r):
    return r.choice(["", " ", "\n"]) + r.choice(IDENT) + r.choice([":", " :", ": ", " : ", "", "/**/:", "::"]) + values(r) + r.choice(["", "", "", "!important", " ! important ", "!IMPORTANT", "! x", "important", "!!important", "!important important", "!important;"])


def decls(r):
    return "".join((decl(r) if r.random() < .7 else r.choice(["@a b;", "@x {y:z}", values(r), "1:2", "{a:b}", "", ";;"])) + r.choice([";", ";", "; ", "", "\n;"]) for _ in range(r.randrange(0, 5)))


def rule(r):
    k = r.random()
    if k < .35:
        return "@" + r.choice(IDENT) + " " + values(r) + r.choice([";", "{" + (rules(r) if r.random() < .4 else decls(r)) + "}", "", "{", "{a"])
    if k < .9:
        return values(r) + "{" + decls(r) + r.choice(["}", "}", "}", "}", "", "]}"])
    return r.choice(["<!--", "-->", "{}", ";", "}", "a", "@", "{", " "])


def rules(r):
    return "".join(rule(r) + r.choice(["", " ", "\n"]) for _ in range(r.randrange(0, 4)))


def mutate(r, s):
    s = list(s)
    for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
        k = r.random()
        p = r.randrange(len(s) + 1)
        if k < .45:
            s[p:p] = r.choice(FRAG)
        elif k < .75 and s:
            del s[min(p, len(s) - 1)]
        elif s:
            s = s[:p]
    return "".join(s)


GEN = {"stylesheet": rules, "rules": rules, "rule": rule, "decl": decl, "decls": decls, "cv": value, "cvs": values, "commas": lambda r: ",".join(values(r) for _ in range(r.randrange(0, 5)))}
FN = {"stylesheet": "parse_stylesheet", "rules": "parse_list_of_rules", "rule": "parse_rule", "decl": "parse_declaration", "decls": "parse_list_of_declarations", "cv": "parse_component_value", "cvs": "parse_list_of_component_values", "commas": "parse_comma_separated_list_of_component_values"}


def cps(s):
    return [ord(c) for c in s]


def line(c):
    op, s = c
    if op == "bytes":
        return op + " " + (s.hex() or ".")
    return op + " " + ("".join("%08x" % ord(ch) for ch in s) or ".")


def charset(b):
    """The fallback encoding of a style sheet without transport information."""
    if b.startswith(b'@charset "'):
        m = re.match(rb'@charset "([\x00-\x21\x23-\x7f]*)";', b[:1024])
        if m:
            return m.group(1).decode("latin1")
    return None


def decode_bytes(b):
    """code points: a byte order mark wins, then @charset (UTF-16 means UTF-8 there), then UTF-8"""
    enc, n = X.sniff(b)
    if enc is None:
        l = charset(b)
        enc = LABEL.get(l.strip("\t\n\f\r ").lower(), "utf-8") if l is not None else "utf-8"
        if enc in ("utf-16be", "utf-16le"):
            enc = "utf-8"
    return X.decode(enc, b[n:])


def expect(cases):
    out = []
    for op, s in cases:
        if op == "bytes":
            t = decode_bytes(s)
            v = R.Parser(R.tokens(t)).parse_stylesheet()
        elif op == "tokens":
            v = ("list", tuple(R.tokens(cps(s))))
        else:
            v = getattr(R.Parser(R.tokens(cps(s))), FN[op])()
        out.append(" ".join(repr(a) if isinstance(a, float) else a for a in R.show(v)) + " ")
    return out


def same(got, want):
    if got == want:
        return True
    g, w = got.split(), want.split()
    if len(g) != len(w):
        return False
    num = False
    for a, b in zip(g, w):
        if a != b:
            if not num:
                return False
            try:
                x, y = float(a), float(b)
            except ValueError:
                return False
            if x != y and not abs(x - y) <= 1e-9 * max(abs(x), abs(y)):
                # beyond the range of a double only saturation (any large value, or zero) is asked for
                if not (abs(y) > 1e300 and abs(x) > 1e300 and (x < 0) == (y < 0)) and not (abs(y) < 1e-300 and abs(x) < 1e-300):
                    return False
        num = b in ("<number", "<percentage", "<dimension")
    return True


def sig(c, got, want):
    g, w = got.split(), want.split()
    for a, b in zip(g, w):
        if a != b:
            return "%s: %s where the standard has %s" % (c[0], _kind(a), _kind(b))
    return "%s: the result is %s than the standard's" % (c[0], "longer" if len(g) > len(w) else "shorter")


def _kind(a):
    a = a.lstrip("<")
    if re.fullmatch(r"[-+0-9.einfa]+", a) and any(ch.isdigit() for ch in a):
        return "a number"
    return a if a in ("ident", "function-token", "function", "at", "string", "url", "hash", "delim", "number", "percentage", "dimension", "block", "at-rule", "rule", "declaration", "list", "ws", "cdo", "cdc", "error", "bad-url", "bad-string", ">", "|", "!", "-", "id", "unrestricted", "integer") or len(a) == 1 and not a.isalnum() else "a text"


SWEEP = list(range(0x180)) + [0x2028, 0x3000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdffe, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0x10fffe, 0x10ffff, 0x110000, 0x110001, 0x1fffff, 0xfffffe, 0xffffff]
PLACES = ["%s", "a%s", "-%s", "--%s", "%s(", "a%s(", "#%s", "#-%s", "@%s", "@-%s", "1%s", "+%s", "-.%s", "1.%s", "1e%s", "1e-%s", "'%s'", "'a%sb", "url(%s)", "url(a%s)", "url( %s 'x'", "url(a %s)", "url(a'%s)", "/%s", "/*%s", "/**%s/", "<!-%s", "<%s--", "--%s>", "u%sl(x)"]


def sweep():
    """every character of a set, plain and as an escape of every length, in every kind of place"""
    for p in PLACES:
        for c in SWEEP:
            if c < 0x110000:
                yield "tokens", p % chr(c)
                yield "tokens", p % ("\\" + chr(c))
            for e in ("\\%x", "\\%X ", "\\%06x", "\\%05x\t", "\\%x\r\nq"):
                yield "tokens", p % (e % c)


def gen_C01(r, tier):
    yield from sweep()
    for f in FRAG:
        yield "tokens", f
        for g in r.sample(FRAG, 60 if tier == "quick" else len(FRAG)):
            yield "tokens", f + g
    for _ in range(150000 if tier == "quick" else 4000000):
        k = r.random()
        if k < .6:
            yield "tokens", "".join(r.choice(FRAG) for _ in range(r.randrange(1, 8)))
        elif k < .8:
            yield "tokens", mutate(r, num(r) + r.choice(FRAG + IDENT))
        elif k < .9:
            yield "tokens", mutate(r, rules(r))
        else:
            yield "tokens", "".join(chr(r.choice([r.randrange(0, 0x80), r.choice([0x22, 0x27, 0x5C, 0x2D, 0x2E, 0x2B, 0x65, 0x31, 0x28, 0x29, 0x2F, 0x2A, 0xA, 0x20]), r.randrange(0x110000)])) for _ in range(r.randrange(0, 24)))


def gen_C02(r, tier):
    for _ in range(200000 if tier == "quick" else 2500000):
        op = r.choice(list(GEN))
        yield op, mutate(r, GEN[op](r) if r.random() < .85 else GEN[r.choice(list(GEN))](r))
    for _ in range(8000 if tier == "quick" else 200000):
        h = r.choice([b"", b"", b"\xef\xbb\xbf", b'@charset "utf-8";', b'@charset "KOI8-R";', b'@charset "iso-8859-2";', b'@charset "utf-16le";', b'@charset "bogus";', b'@charset " koi8-r";', b'@charset  "koi8-r";', b"@charset 'koi8-r';", b'@charset "koi8-r"', b'@CHARSET "koi8-r";', b'@charset "koi8-r" ;', b'@charset "' + b" " * r.choice([900, 1000, 1006, 1007, 1008, 1100]) + b'koi8-r";'])
        if r.random() < .3:
            h = r.choice([b'@charset "%s";', b'@charset "%s";', b'@charset "\t%s\n";', b"\xef\xbb\xbf@charset \"%s\";"]) % r.choice(list(LABEL)).upper().encode() if r.random() < .8 else r.choice([b"\xfe\xff", b"\xff\xfe", b"\xfe", b"\xef\xbb"])
        b = r.choice([bytes(r.choice([0x1b, 0x24, 0x42, 0x28, 0x4a, 0x7e, 0x8e, 0xa4, 0x82, 0xff, 0x30, 0x0a, r.randrange(256)]) for _ in range(r.randrange(40))) + b"{a:b}", b"a{b:'\xc1\xd2\xe9'}", rules(r).encode("utf-8", "replace"), "p{q:\u00e9\u3042}".encode(), b"x\x80\xff{y:z}"])
        yield "bytes", h + b


RULE = {"C01": "One case is one text; distinct by content and outcome. Includes every ordered pair of a list of boundary fragments (sampled in the quick run).",
        "C02": "One case is one text and parser entry point, or one byte sequence parsed as a style sheet; distinct by content and outcome."}


def check(prop, tier):
    c = Check(prop, tier)
    c.rule = RULE[prop]
    c.assumptions = ["g++ 13 with AddressSanitizer and UndefinedBehaviorSanitizer, library and libstdc++ assertions on",
                     "vf/css_ref.py, written from CSS Syntax Level 3 (2020 draft, which the library follows)",
                     "numbers are compared to a relative tolerance of 1e-9"]
    exe = Build().binary("css", "css.cpp", libs=("encoding", "css"))
    rnd = random.Random(SEED * 6007 + ord(prop[2]))
    cs = list({"C01": gen_C01, "C02": gen_C02}[prop](rnd, tier))
    for op, _ in cs:
        c.count("cases of " + op)
    compare(c, exe, cs, line, expect, sig, tier, same=same, show=repr)
    return c.finish()

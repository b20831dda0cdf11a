"""E01 decoders, E02 encoders, E03 labels, byte order marks, streaming."""
import random
from .core import *
from . import enc_ref as R

LABELS = {
    "utf-8": "unicode-1-1-utf-8 utf-8 utf8", "ibm866": "866 cp866 csibm866 ibm866",
    "iso-8859-2": "csisolatin2 iso-8859-2 iso-ir-101 iso8859-2 iso88592 iso_8859-2 iso_8859-2:1987 l2 latin2",
    "iso-8859-3": "csisolatin3 iso-8859-3 iso-ir-109 iso8859-3 iso88593 iso_8859-3 iso_8859-3:1988 l3 latin3",
    "iso-8859-4": "csisolatin4 iso-8859-4 iso-ir-110 iso8859-4 iso88594 iso_8859-4 iso_8859-4:1988 l4 latin4",
    "iso-8859-5": "csisolatincyrillic cyrillic iso-8859-5 iso-ir-144 iso8859-5 iso88595 iso_8859-5 iso_8859-5:1988",
    "iso-8859-6": "arabic asmo-708 csiso88596e csiso88596i csisolatinarabic ecma-114 iso-8859-6 iso-8859-6-e iso-8859-6-i iso-ir-127 iso8859-6 iso88596 iso_8859-6 iso_8859-6:1987",
    "iso-8859-7": "csisolatingreek ecma-118 elot_928 greek greek8 iso-8859-7 iso-ir-126 iso8859-7 iso88597 iso_8859-7 iso_8859-7:1987 sun_eu_greek",
    "iso-8859-8": "csiso88598e csisolatinhebrew hebrew iso-8859-8 iso-8859-8-e iso-ir-138 iso8859-8 iso88598 iso_8859-8 iso_8859-8:1988 visual",
    "iso-8859-8-i": "csiso88598i iso-8859-8-i logical", "iso-8859-10": "csisolatin6 iso-8859-10 iso-ir-157 iso8859-10 iso885910 l6 latin6",
    "iso-8859-13": "iso-8859-13 iso8859-13 iso885913", "iso-8859-14": "iso-8859-14 iso8859-14 iso885914",
    "iso-8859-15": "csisolatin9 iso-8859-15 iso8859-15 iso885915 iso_8859-15 l9", "iso-8859-16": "iso-8859-16",
    "koi8-r": "cskoi8r koi koi8 koi8-r koi8_r", "koi8-u": "koi8-ru koi8-u", "macintosh": "csmacintosh mac macintosh x-mac-roman",
    "windows-874": "dos-874 iso-8859-11 iso8859-11 iso885911 tis-620 windows-874", "windows-1250": "cp1250 windows-1250 x-cp1250",
    "windows-1251": "cp1251 windows-1251 x-cp1251",
    "windows-1252": "ansi_x3.4-1968 ascii cp1252 cp819 csisolatin1 ibm819 iso-8859-1 iso-ir-100 iso8859-1 iso88591 iso_8859-1 iso_8859-1:1987 l1 latin1 us-ascii windows-1252 x-cp1252",
    "windows-1253": "cp1253 windows-1253 x-cp1253",
    "windows-1254": "cp1254 csisolatin5 iso-8859-9 iso-ir-148 iso8859-9 iso88599 iso_8859-9 iso_8859-9:1989 l5 latin5 windows-1254 x-cp1254",
    "windows-1255": "cp1255 windows-1255 x-cp1255", "windows-1256": "cp1256 windows-1256 x-cp1256", "windows-1257": "cp1257 windows-1257 x-cp1257",
    "windows-1258": "cp1258 windows-1258 x-cp1258", "x-mac-cyrillic": "x-mac-cyrillic x-mac-ukrainian",
    "gbk": "chinese csgb2312 csiso58gb231280 gb2312 gb_2312 gb_2312-80 gbk iso-ir-58 x-gbk", "gb18030": "gb18030",
    "big5": "big5 big5-hkscs cn-big5 csbig5 x-x-big5", "euc-jp": "cseucpkdfmtjapanese euc-jp x-euc-jp", "iso-2022-jp": "csiso2022jp iso-2022-jp",
    "shift_jis": "csshiftjis ms932 ms_kanji shift-jis shift_jis sjis windows-31j x-sjis",
    "euc-kr": "cseuckr csksc56011987 euc-kr iso-ir-149 korean ks_c_5601-1987 ks_c_5601-1989 ksc5601 ksc_5601 windows-949",
    "replacement": "csiso2022kr hz-gb-2312 iso-2022-cn iso-2022-cn-ext iso-2022-kr replacement", "utf-16be": "utf-16be", "utf-16le": "utf-16 utf-16le",
    "x-user-defined": "x-user-defined"}
LABEL = {l: n for n, ls in LABELS.items() for l in ls.split()}


def u8(cps):
    return "".join(map(chr, cps)).encode("utf-8", "surrogatepass").hex()


HOT = {
    "utf-8": [0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xBB, 0x41],
    "gb18030": [0x80, 0x81, 0x82, 0x84, 0x90, 0xE3, 0xFE, 0xFF, 0x30, 0x35, 0x39, 0x3A, 0x2F, 0x40, 0x7E, 0x7F, 0xA2, 0xE3],
    "big5": [0x80, 0x81, 0x87, 0x88, 0xA1, 0xC6, 0xFE, 0xFF, 0x40, 0x62, 0x64, 0x7E, 0x7F, 0xA0, 0xA3, 0xA5],
    "euc-jp": [0x8E, 0x8F, 0xA1, 0xA2, 0xB0, 0xDF, 0xE0, 0xFE, 0xFF, 0x80, 0xA0, 0x41, 0x20],
    "iso-2022-jp": [0x1B, 0x1B, 0x24, 0x28, 0x42, 0x4A, 0x49, 0x40, 0x21, 0x7E, 0x5C, 0x0E, 0x0F, 0x30, 0x5F, 0x60, 0x80, 0x20, 0x0A],
    "shift_jis": [0x80, 0x81, 0x9F, 0xA0, 0xA1, 0xDF, 0xE0, 0xEF, 0xF0, 0xF9, 0xFA, 0xFC, 0xFD, 0x40, 0x7E, 0x7F, 0x3F],
    "euc-kr": [0x80, 0x81, 0xA1, 0xC8, 0xFE, 0xFF, 0x40, 0x41, 0x5A, 0x5B, 0x7B, 0x7F],
    "utf-16be": [0xD8, 0xDB, 0xDC, 0xDF, 0xFE, 0xFF, 0x00, 0x41, 0xD7, 0xE0],
}
HOT["gbk"] = HOT["gb18030"]; HOT["utf-16le"] = HOT["utf-16be"]


ESC = [b"\x1b(B", b"\x1b(J", b"\x1b(I", b"\x1b$@", b"\x1b$B"]


def iso2022(rnd):
    out = b""
    for _ in range(rnd.choice([1, 2, 3, 5, 8])):
        k = rnd.random()
        if k < .5:
            out += rnd.choice(ESC)
        elif k < .6:
            e = rnd.choice(ESC)
            out += rnd.choice([e[:1], e[:2], e[:2] + bytes([rnd.randrange(256)]), b"\x1b" + bytes([rnd.randrange(256)]), b"\x1b\x1b"])
        out += bytes(rnd.choice([rnd.randrange(0x20, 0x80), rnd.choice([0x5C, 0x7E, 0x20, 0x21, 0x5F, 0x60, 0x7F, 0x80, 0x0E, 0x0F, 0x0A, 0xFF, 0xA1]), rnd.randrange(256)]) for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 4])))
    return out


def rand_bytes(rnd, enc):
    if enc == "iso-2022-jp" and rnd.random() < .7:
        return iso2022(rnd)
    n = rnd.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20, 40])
    hot = HOT.get(enc)
    out = bytearray()
    while len(out) < n:
        k = rnd.random()
        if hot and k < 0.55:
            out.append(rnd.choice(hot))
        elif k < 0.75 and enc in R.ENCODABLE:
            out += valid_bytes(rnd, enc)
        elif k < 0.85:
            out.append(rnd.randrange(0x20, 0x7F))
        else:
            out.append(rnd.randrange(256))
    return bytes(out)


POOL = {}


def pool(enc):
    if enc not in POOL:
        if enc in R._sbi: POOL[enc] = list(R._sbi[enc])
        elif enc in ("gbk", "gb18030"): POOL[enc] = list(R._gbi)
        elif enc == "big5": POOL[enc] = list(R._big5i)
        elif enc == "euc-kr": POOL[enc] = list(R._kri)
        elif enc in ("euc-jp", "iso-2022-jp", "shift_jis"): POOL[enc] = list(R._jisi)
        elif enc == "x-user-defined": POOL[enc] = list(range(0xF780, 0xF800))
        else: POOL[enc] = list(range(0x80, 0xD800)) + list(range(0xE000, 0x10000))
    return POOL[enc]


EDGE_CP = [0, 0x0E, 0x0F, 0x1B, 0x5C, 0x7E, 0x7F, 0x80, 0xA5, 0xFF, 0x100, 0x7FF, 0x800, 0x203E, 0x20AC, 0x2212, 0x2550, 0x5341, 0xD7FF, 0xE000, 0xE5E5, 0xE7C7, 0xF780, 0xF7FF,
           0xFEFF, 0xFF0D, 0xFF61, 0xFF9E, 0xFF9F, 0xFFA0, 0xFFE5, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x20000, 0x2A6D6, 0x10FFFF, 0xC7, 0xCA, 0x304, 0x30C, 0x1E3F, 0x1E40]


def rand_cp(rnd, enc):
    k = rnd.random()
    if k < 0.4: return rnd.choice(pool(enc))
    if k < 0.6: return rnd.choice(EDGE_CP)
    if k < 0.8: return rnd.randrange(0x80)
    if k < 0.9: return rnd.randrange(0x10000, 0x110000)
    c = rnd.randrange(0x10000)
    return c if not 0xD800 <= c <= 0xDFFF else 0xFFFD


def valid_bytes(rnd, enc):
    c = rnd.choice(pool(enc)) if rnd.random() < 0.8 else rand_cp(rnd, enc)
    return R.encode(enc, [c])


def gen_E01(rnd, tier):
    cs = []
    for e in R.ALL:                      # every single byte
        for lo in range(0, 256, 64):
            cs.append(("N", e, b"".join(bytes([x]) + b"\n" for x in range(lo, lo + 64))))
    for e in R.MULTI + ["utf-8"]:        # every pair of bytes
        for l in range(0x80, 0x100):
            cs.append(("N", e, b"".join(bytes([l, t, 0x0A]) for t in range(256))))
    for l in range(0xA1, 0xFF):          # every JIS X 0212 row
        cs.append(("N", "euc-jp", b"".join(bytes([0x8F, l, t, 0x0A]) for t in range(0xA0, 0x100))))
    for base in range(0, 1587600, 2100):  # every four-byte shape of gb18030
        cs.append(("N", "gb18030", b"".join(bytes([p // 12600 + 0x81, p % 12600 // 1260 + 0x30, p % 1260 // 10 + 0x81, p % 10 + 0x30]) for p in range(base, base + 2100))))
    for base in range(0, 0x110000, 0x800):  # every code point in the Unicode encodings, surrogates too
        for e, f in (("utf-8", "utf-8"), ("utf-16be", "utf-16-be"), ("utf-16le", "utf-16-le")):
            cs.append(("N", e, "".join(map(chr, range(base, base + 0x800))).encode(f, "surrogatepass")))
    for rows in range(0x21, 0x7F):       # every JIS X 0208 row inside ISO-2022-JP
        cs.append(("N", "iso-2022-jp", b"\x1b$B" + b"".join(bytes([rows, t]) for t in range(0x21, 0x7F))))
    for e in ESC:                        # every byte after every escape sequence, alone and after another byte; every pair of escape sequences
        for a in (b"", b"!", b"0"):
            for lo in range(0, 256, 32):
                cs.append(("N", "iso-2022-jp", b"".join(e + a + bytes([x]) for x in range(lo, lo + 32))))
        for f in ESC:
            for m in (b"", b"!", b"00", b"\n", b"\x1b"):
                cs.append((rnd.choice("NX"), "iso-2022-jp", e + m + f + m + b"\\~"))
        for n in (1, 2):
            for x in range(256):
                cs.append(("N", "iso-2022-jp", e + e[:n] + bytes([x]) + b"0!"))
    for x in range(0x81, 0x100):         # three- and four-byte shapes of UTF-8 with bad continuation at each place
        for e in ("utf-8", "gb18030"):
            cs.append(("N", e, b"".join(bytes([x]) + bytes(rnd.choice(HOT[e]) for _ in range(3)) + b"\n" for _ in range(24))))
    multi = R.MULTI + ["utf-8", "utf-16be", "utf-16le", "replacement", "x-user-defined"]
    n = 70000 if tier == "quick" else 500000
    for _ in range(n):
        e = rnd.choice(multi) if rnd.random() < 0.85 else rnd.choice(R.ALL)
        cs.append((rnd.choice("NNNXX"), e, rand_bytes(rnd, e)))
    return cs


def gen_E02(rnd, tier):
    cs = []
    enc = R.ENCODABLE
    for e in enc:
        blocks = range(0, 0x10000, 0x400)
        for b in blocks:
            cps = [c for c in range(b, b + 0x400) if not 0xD800 <= c <= 0xDFFF]
            if cps: cs.append(("e", e, cps))
    sup = range(0x10000, 0x110000, 0x400)
    for b in sup:
        for e in ("gb18030", "utf-8"):
            cs.append(("e", e, list(range(b, b + 0x400))))
    for b in range(0x10000, 0x30000, 0x400):   # supplementary code points of the tables
        for e in ("big5", "gbk", "euc-jp", "euc-kr", "shift_jis", "iso-2022-jp") if tier == "thorough" or 0x20000 <= b < 0x2B000 else ("big5",):
            cs.append(("e", e, list(range(b, b + 0x400))))
    n = 50000 if tier == "quick" else 400000
    for _ in range(n):
        e = rnd.choice(R.MULTI + ["utf-8", "iso-2022-jp", "iso-2022-jp"]) if rnd.random() < 0.8 else rnd.choice(enc)
        cs.append((rnd.choice("eef"), e, [rand_cp(rnd, e) for _ in range(rnd.choice([0, 1, 2, 3, 4, 6, 10, 20]))]))
    return cs


def chunks(rnd, b):
    out, i = [], 0
    while i < len(b) or not out:
        k = rnd.choice([0, 1, 1, 1, 2, 3, 5, 100])
        out.append(b[i:i + k]); i += k
    if rnd.random() < 0.3: out.append(b"")
    return out


BOMS = [b"\xEF\xBB\xBF", b"\xFE\xFF", b"\xFF\xFE", b"\xEF\xBB", b"\xEF", b"\xFE", b"\xFF", b"\xEF\xBB\xBF\xEF\xBB\xBF", b"\xFF\xFE\x00\x00"]


def gen_E03(rnd, tier):
    cs = []
    for l in LABEL: cs.append(("L", l))
    n = 40000 if tier == "quick" else 300000
    for _ in range(n // 4):
        l = rnd.choice(list(LABEL))
        k = rnd.random()
        if k < 0.3: l = "".join(c.upper() if rnd.random() < .5 else c for c in l)
        elif k < 0.6: l = "".join(rnd.choice("\t\n\f\r ") for _ in range(rnd.randrange(3))) + l + "".join(rnd.choice("\t\n\f\r ") for _ in range(rnd.randrange(3)))
        elif k < 0.7: l = rnd.choice("\x0b\x00\xa0\u3000\u2028\u0130x") + l
        elif k < 0.8: i = rnd.randrange(len(l)); l = l[:i] + rnd.choice(" -_x\u212a\u017f0") + l[i + rnd.randrange(2):]
        elif k < 0.9: l = l[:rnd.randrange(len(l) + 1)]
        else: l = l.replace("k", "\u212a").replace("s", "\u017f").replace("i", "\u0131") if rnd.random() < .5 else l + rnd.choice("\x0b\x1f\x85\u2003x")
        cs.append(("L", l))
    for _ in range(n // 8): cs.append(("Q",))
    for _ in range(n // 2):
        e = rnd.choice(R.ALL) if rnd.random() < .4 else rnd.choice(["utf-8", "utf-16be", "utf-16le", "gb18030", "iso-2022-jp"])
        b = (rnd.choice(BOMS) if rnd.random() < .6 else b"") + rand_bytes(rnd, rnd.choice([e, e, "utf-8", "utf-16le"]))
        cs.append((rnd.choice("DDDUVW"), e, b))
    for _ in range(n):
        e = rnd.choice([x for x in R.ALL if x != "replacement"]) if rnd.random() < .3 else rnd.choice(["utf-8", "utf-8", "utf-16be", "utf-16le"] + R.MULTI)
        groups = []
        for _ in range(rnd.choice([1, 1, 2, 3])):
            b = rand_bytes(rnd, e)
            if rnd.random() < .4: b = {"utf-16be": b"\xFE\xFF", "utf-16le": b"\xFF\xFE"}.get(e, b"\xEF\xBB\xBF") * rnd.choice([1, 1, 2]) + b
            groups.append(chunks(rnd, b))
        cs.append(("T", e, rnd.random() < .3, rnd.random() < .3, groups))
    return cs


def hx(b):
    return b.hex() or "."


def line(c):
    if c[0] == "Q": return "Q"
    if c[0] == "L": return "L " + hx(c[1].encode("utf-8"))
    if c[0] in "ef": return "%s %s %s" % (c[0], c[1], u8(c[2]) or ".")
    if c[0] == "T": return "T %s %d %d %s" % (c[1], c[2], c[3], "|".join("/".join(hx(x) for x in g) for g in c[4]))
    return "%s %s %s" % (c[0], c[1], hx(c[2]))


WS = "\t\n\f\r "


def expected(c):
    op = c[0]
    if op == "Q": return "ok"
    if op == "L":
        l = c[1].strip(WS)
        l = "".join(chr(ord(x) + 32) if "A" <= x <= "Z" else x for x in l)
        n = LABEL.get(l)
        return "%s %s %s" % (n, n, "utf-8" if n in ("replacement", "utf-16be", "utf-16le") else n) if n else "-"
    if op == "e": return "finished " + R.encode(c[1], c[2]).hex()
    if op == "f":
        b, e = R.encode_fatal(c[1], c[2])
        return ("finished " if e is None else "error:%d " % e) + b.hex()
    if op == "N": return "finished " + u8(R.decode(c[1], c[2]))
    if op == "X":
        s, e = R.decode_fatal(c[1], c[2])
        return ("error " if e else "finished ") + u8(s)
    if op == "D":
        e, k = R.sniff(c[2])
        return "finished " + u8(R.decode(e or c[1], c[2][k:]))
    if op == "U": return "finished " + u8(R.decode("utf-8", c[2][3:] if c[2][:3] == b"\xEF\xBB\xBF" else c[2]))
    if op == "V": return "finished " + u8(R.decode("utf-8", c[2]))
    if op == "W":
        s, e = R.decode_fatal("utf-8", c[2])
        return ("error " if e else "finished ") + u8(s)
    if op == "T":
        out = ""
        for g in c[4]:
            b = b"".join(g)
            s, e = R.decode_fatal(c[1], b)
            if c[2] and e: return out + "error"
            if not c[2]: s = R.decode(c[1], b)
            if not c[3] and c[1] in ("utf-8", "utf-16be", "utf-16le") and s[:1] == [0xFEFF]: s = s[1:]
            out += "text:" + u8(s) + "|"
        return out


SIG = {"N": "decoding with replacement differs from the standard", "X": "decoding in fatal mode differs from the standard", "e": "encoding differs from the standard",
       "f": "encoding in fatal mode differs from the standard", "D": "the decode hook differs from the standard", "U": "UTF-8 decode differs from the standard",
       "V": "UTF-8 decode without BOM differs from the standard", "W": "UTF-8 decode without BOM or fail differs from the standard",
       "T": "streamed decoding differs from decoding the whole input", "L": "a label resolves differently from the standard", "Q": "io queue"}
RULE = {"E01": "One case is one byte sequence in one encoding and error mode; distinct by content.",
        "E02": "One case is one code point sequence in one encoding and error mode; distinct by content.",
        "E03": "One case is a label, a queue history, a byte sequence with or without a byte order mark, or a chunked stream; distinct by content."}


def _exp(cs):
    return [expected(c) for c in cs]


def check(prop, tier):
    c = Check(prop, tier)
    c.rule = RULE[prop]
    c.assumptions = ["g++ 13 with AddressSanitizer and UndefinedBehaviorSanitizer, library and libstdc++ assertions on",
                     "vf/enc_ref.py, written from the Encoding Standard, with index tables taken from encoding_rs 0.8.35 (gb18030 in its pre-2023 edition)"]
    exe = Build().binary("encoding", "encoding.cpp", libs=("encoding",), link=ICU)
    rnd = random.Random(SEED * 7919 + ord(prop[2]))
    cs = {"E01": gen_E01, "E02": gen_E02, "E03": gen_E03}[prop](rnd, tier)
    compare(c, exe, cs, line, _exp, lambda x, got, want: SIG[x[0]], tier)
    for x in cs:
        c.count("encoding " + x[1] if len(x) > 2 else "labels" if x[0] == "L" else "queues")
    return c.finish()
